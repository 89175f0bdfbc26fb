//! C30: no input makes the parser work out of proportion.
use super::mime::any_mail;
use super::robust::*;
use super::*;
use crate::cov;

/// comparisons per byte that no input comes near (the worst known is about 250)
const PER_BYTE: u64 = 1000;
/// suspicious when the work also grew faster than the input
const GROWING: u64 = 300;

pub static C30: PropDef = PropDef {
    id: "C30",
    run: c30,
    labels: &["fragment of mail repeated", "span of a valid mail repeated", "hostile input", "long transfer encoded body", "grown 8 times", "accepted", "rejected", "multipart", "in a header value", "in the body", "lists and lines repeated", "numbered", "hundreds of kilobytes of small things"],
    rule: "a prefix, a unit repeated k times and a suffix (fragments of syntax, spans of generated mail, single bytes, elements of lists, header lines, parts; a quarter of them with a running number in each) with the cost measured at growing k up to 40000 bytes, inputs of the crash check, transfer encoded bodies of up to 3 MB, and up to 1 MB of short headers, elements or parts; the cost is the number of comparisons the instrumented library executes, and for the long ones its CPU time; non-trivial: at least 300 bytes; distinct by input bytes",
};
struct Cost {
    msg: u64,
    email: u64,
    whole: u64,
    depth: u64,
    ok: bool,
}
fn measure(c: &mut Ctx, b: &[u8]) -> Result<Cost, String> {
    let mut au = Audit::default();
    let s0 = cov::steps();
    let r = c.sut.message(b, &mut au);
    let s1 = cov::steps();
    if let Err(Fail::Panic(m)) = &r {
        return Err(format!("panic: {}", m));
    }
    let ok = r.is_ok();
    drop(r);
    let _ = c.sut.email(b, 0, &mut au);
    let s2 = cov::steps();
    let mut depth = 0;
    let mut s3 = s2;
    if c.sut.feats().mime {
        if let Ok(e) = c.sut.email(b, 500, &mut au) {
            s3 = cov::steps();
            depth = e.ent.as_ref().map(depth_of).unwrap_or(0) as u64;
        }
    }
    Ok(Cost { msg: s1 - s0, email: s2 - s1, whole: s3 - s2, depth, ok })
}
fn over(n: usize, k: &Cost, small: Option<(usize, &Cost)>) -> Result<(), String> {
    let n = n as u64 + 200;
    for (what, per, cost, before) in [
        ("parse_message", 1, k.msg, small.map(|s| (s.0, s.1.msg))),
        ("Email::parse", 1, k.email, small.map(|s| (s.0, s.1.email))),
        ("the decoding of all entities", 2 + k.depth, k.whole, small.map(|s| (s.0, s.1.whole))),
    ] {
        if cost > PER_BYTE * per * n {
            return Err(format!("{} makes {} comparisons for {} bytes", what, cost, n - 200));
        }
        if let Some((m, c0)) = before {
            let m = m as u64 + 200;
            // three times out of proportion
            if cost > GROWING * per * n && k.depth == small.unwrap().1.depth && cost * m > 3 * c0.max(1) * n && n > 4 * m {
                return Err(format!("{} makes {} comparisons for {} bytes, and {} for {}", what, cost, n - 200, c0, m - 200));
            }
        }
    }
    Ok(())
}
fn unit(c: &mut Ctx) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let head = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
    match c.s.weighted(&[6, 4]) {
        0 => {
            c.o.label(0);
            let mut p = head;
            match c.s.weighted(&[6, 2, 2, 1]) {
                0 => {
                    c.o.label(8);
                    let t = *c.s.pick(&KNOWN[..]);
                    if c.s.pct(20) {
                        p = b"Received: ".to_vec();
                    } else {
                        p.extend_from_slice(t.as_bytes());
                        p.extend_from_slice(b": ");
                    }
                }
                1 => {
                    c.o.label(9);
                    p.extend_from_slice(b"Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n");
                }
                2 => {}
                _ => p.extend_from_slice(b"\r\n"),
            }
            let x = c.s.below(4) as usize;
            p.extend(snippets(c.s, x));
            let x = 1 + c.s.size(2, 6);
            let mut u = snippets(c.s, x);
            if c.s.pct(60) {
                // what would end the value
                u.retain(|x| (32..127).contains(x) || *x == b'\t');
                if c.s.pct(20) {
                    u.extend_from_slice(b"\r\n ");
                }
            }
            if u.is_empty() {
                u.push(b'(');
            }
            let x = c.s.below(4) as usize;
            let mut z = snippets(c.s, x);
            if c.s.pct(60) {
                z.extend_from_slice(b"\r\n");
            }
            (p, u, z)
        }
        _ => {
            c.o.label(1);
            let mut b = any_mail(c, 3, 12, 15);
            if c.s.pct(40) {
                mutate(c.s, &mut b);
            }
            if b.is_empty() {
                b.push(b'(');
            }
            let i = c.s.below(b.len() as u32) as usize;
            let l = 1 + c.s.size(12, 300);
            let e = (i + l).min(b.len());
            (b[..i].to_vec(), b[i..e].to_vec(), b[e..].to_vec())
        }
    }
}
/// unit k times, with the number of each written into it
fn numbered(u: &[u8], at: usize, style: u32, k: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity((u.len() + 5) * k);
    for i in 0..k {
        o.extend_from_slice(&u[..at]);
        match style {
            0 => o.extend_from_slice(i.to_string().as_bytes()),
            1 => o.extend_from_slice(format!("{:05}", i).as_bytes()),
            _ => {
                let mut x = i;
                for _ in 0..4 {
                    o.push(b'a' + (x % 26) as u8);
                    x /= 26;
                }
            }
        }
        o.extend_from_slice(&u[at..]);
    }
    o
}
/// whole lines of a valid mail, to be repeated with numbers in them
fn lines_unit(c: &mut Ctx) -> (Vec<u8>, Vec<u8>, Vec<u8>, usize) {
    let head = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
    let (p, u): (Vec<u8>, Vec<u8>) = match c.s.weighted(&[4, 3, 3, 2]) {
        0 => {
            let mut mail = Mail::default();
            let k = knobs(c, 5, 5);
            mail.unknown(c.s, k);
            (head, if c.s.pct(50) { b"X:\r\n".to_vec() } else { mail.b })
        }
        1 => {
            // an element of a list
            let (n, u) = *c.s.pick(&[
                ("To:", " a@b.c,"),
                ("To:", "\r\n x <a@b.c>,"),
                ("Cc: g:", "a@b,"),
                ("Keywords:", " a,"),
                ("References:", " <a@b>"),
                ("In-Reply-To:", "<a@b>"),
                ("Content-Type: text/plain", ";a=b"),
                ("Content-Type: text/plain", "; a*=utf-8''b"),
                ("Content-Type: text/plain", "; a*0=b"),
                ("Content-Disposition: attachment", "; a=b"),
                ("Comments:", " a"),
                ("Subject:", " =?utf-8?Q?a?="),
                ("Received:", " a"),
            ]);
            (if n == "Received:" { n.into() } else { [&head[..], n.as_bytes()].concat() }, u.into())
        }
        2 => {
            let (p, u) = *c.s.pick(&[
                ("", "--b\r\n\r\na\r\n"),
                ("", "--b\r\nContent-ID: <a@b>\r\n\r\na\r\n"),
                ("", "--b\r\nContent-Type: text/plain\r\n\r\na\r\n"),
                ("--b\r\n", "X: a\r\n"),
                ("--b\r\n\r\n", "a\r\n"),
                ("--b\r\n\r\n", "--a\r\n"),
                ("", "a\r\n"),
            ]);
            ([&head[..], b"Content-Type: multipart/mixed; boundary=b\r\n\r\n", p.as_bytes()].concat(), u.into())
        }
        _ => {
            let u: &str = *c.s.pick(&["Comments: a\r\n", "Keywords: a\r\n", "Received: a; 1 Jan 2000 00:00 +0000\r\n", "Resent-To: a@b.c\r\n", "Return-Path: <a@b.c>\r\n", "Resent-Message-ID: <a@b.c>\r\n"]);
            (if c.s.pct(50) || !u.starts_with('R') { head } else { vec![] }, u.into())
        }
    };
    let at = match c.s.below(3) {
        0 => u.iter().position(|x| *x == b':').unwrap_or(0),
        1 => {
            let l: Vec<usize> = (0..u.len()).filter(|i| u[*i].is_ascii_alphabetic()).collect();
            if l.is_empty() { 0 } else { l[c.s.below(l.len() as u32) as usize] }
        }
        _ => c.s.below(u.len() as u32 + 1) as usize,
    };
    (p, u, if c.s.pct(70) { b"\r\n".to_vec() } else { vec![] }, at)
}
/// What the last bytes cost grows with every doubling, four times in a row: that is no longer proportional.
fn growing(costs: &[(usize, Cost)]) -> Option<String> {
    if costs.len() < 6 {
        return None;
    }
    let l = &costs[costs.len() - 6..];
    if l.iter().any(|x| x.1.ok != l[5].1.ok || x.1.depth != l[5].1.depth) {
        return None;
    }
    for (what, f) in [("parse_message", (|x: &Cost| x.msg) as fn(&Cost) -> u64), ("Email::parse", |x: &Cost| x.email), ("the decoding of all entities", |x: &Cost| x.whole)] {
        let per: Vec<f64> = l.windows(2).map(|w| (f(&w[1].1) as f64 - f(&w[0].1) as f64) / (w[1].0 - w[0].0) as f64).collect();
        if per[4] > 40.0 && per.windows(2).all(|w| w[0] > 0.0 && w[1] > 1.6 * w[0]) {
            return Some(format!("the comparisons {} makes for one more byte grow with the length: {:.0?} (at {} bytes)", what, per, l[5].0));
        }
    }
    None
}
/// Hundreds of kilobytes of small things: moving what was read before once for each of them shows in the CPU time.
fn many(c: &mut Ctx) -> Result<(), String> {
    c.o.label(12);
    c.o.nontrivial = true;
    let (p, u, z, at) = lines_unit(c);
    let style = c.s.below(4);
    let n = 200_000 + c.s.below(600_000) as usize;
    let k = n / (u.len() + 3) + 1;
    let z = if p.windows(9).any(|w| w == b"multipart") { [&z[..], b"\r\n--b--\r\n"].concat() } else { z };
    let b = [&p[..], &if style < 3 { numbered(&u, at, style, k) } else { rep(&u, k) }[..], &z[..]].concat();
    c.o.input = [&p[..], format!("{} times ({:?}) ", k, (style < 3).then_some((at, style))).as_bytes(), &u[..], b" ", &z[..]].concat();
    let me = std::process::id() as i32;
    let t0 = crate::sys::cpu_secs(me);
    let m = measure(c, &b)?;
    c.o.label(if m.ok { 5 } else { 6 });
    over(b.len(), &m, None)?;
    let ms = ((crate::sys::cpu_secs(me) - t0) * 1000.0) as u64;
    if ms > 10_000 {
        return Err(format!("{} bytes took {} ms of CPU time", b.len(), ms));
    }
    Ok(())
}
fn c30(c: &mut Ctx) -> Result<(), String> {
    let thorough = c.thorough;
    match c.s.weighted(&[1600, 400, 2, 1]) {
        0 => {
            let mut number = None;
            let (p, u, z) = if c.s.pct(20) {
                c.o.label(10);
                let (p, u, z, at) = lines_unit(c);
                number = Some((at, c.s.below(3)));
                (p, u, z)
            } else {
                let (p, u, z) = unit(c);
                if c.s.pct(15) {
                    number = Some((c.s.below(u.len() as u32 + 1) as usize, c.s.below(3)));
                }
                (p, u, z)
            };
            if number.is_some() {
                c.o.label(11);
            }
            let build = |k: usize| {
                let m = match number {
                    None => rep(&u, k),
                    Some((at, style)) => numbered(&u, at, style, k),
                };
                [&p[..], &m[..], &z[..]].concat()
            };
            let max = if thorough && c.s.pct(10) { 200_000 } else if c.s.pct(15) { 40_000 } else { 6000 };
            c.o.input = build(2);
            c.o.nontrivial = true;
            let mut k = 2;
            let mut costs: Vec<(usize, Cost)> = Vec::new();
            loop {
                let b = build(k);
                let m = measure(c, &b)?;
                if m.depth > 0 {
                    c.o.label(7);
                }
                c.o.label(if m.ok { 5 } else { 6 });
                // the nearest that is at most an eighth as long
                let before = costs.iter().rev().find(|x| (x.0 + 200) * 6 <= b.len() + 200);
                if before.is_some() {
                    c.o.label(4);
                }
                over(b.len(), &m, before.map(|x| (x.0, &x.1))).map_err(|e| format!("{}: {:?} + {} times {:?} + {:?}", e, esc(&p), k, esc(&u), esc(&z)))?;
                costs.push((b.len(), m));
                if let Some(m) = growing(&costs) {
                    return Err(format!("{}: {:?} + {} times {:?} (numbered: {:?}) + {:?}", m, esc(&p), k, esc(&u), number, esc(&z)));
                }
                if p.len() + u.len() * k * 2 + z.len() > max {
                    break;
                }
                k *= 2;
            }
            Ok(())
        }
        1 => {
            c.o.label(2);
            let (b, _) = hostile(c);
            c.o.nontrivial = b.len() >= 300;
            c.o.input = b.clone();
            let m = measure(c, &b)?;
            c.o.label(if m.ok { 5 } else { 6 });
            over(b.len(), &m, None)
        }
        3 => many(c),
        _ => {
            c.o.label(3);
            c.o.nontrivial = true;
            const UNITS: [&[u8]; 8] = [b"=41", b"=zz", b"=\r\n", b"\xe9", b"QUJD", b"QU JD\r\n", b"****QUJD", b"=C3=A9\r\n"];
            let u = *c.s.pick(&UNITS[..]);
            let n = 1_000_000 + c.s.below(2_000_000) as usize;
            let qp = c.s.pct(60);
            let body = rep(u, n / u.len());
            c.o.input = [&u[..], if qp { b" qp" } else { b" base64" }, format!(" {}", n).as_bytes()].concat();
            let mut au = Audit::default();
            let me = std::process::id() as i32;
            let t0 = crate::sys::cpu_secs(me);
            let direct = c.s.pct(50) || !c.sut.feats().mime;
            let r = if direct && c.sut.feats().mime {
                if qp { c.sut.qp_decode(&body, &mut au).map(|_| ()) } else { c.sut.b64_decode(&body, &mut au).map(|_| ()) }
            } else {
                let mut m = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\nContent-Transfer-Encoding: ".to_vec();
                m.extend_from_slice(if qp { b"quoted-printable\r\n\r\n" } else { b"base64\r\n\r\n" });
                m.extend(body);
                c.sut.email(&m, 1, &mut au).map(|_| ())
            };
            if let Err(Fail::Panic(m)) = r {
                return Err(format!("panic: {}", m));
            }
            let ms = ((crate::sys::cpu_secs(me) - t0) * 1000.0) as u64;
            // hundreds of times what it takes
            if ms > 6000 {
                return Err(format!("decoding {} bytes took {} ms of CPU time", n, ms));
            }
            Ok(())
        }
    }
}
