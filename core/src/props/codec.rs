//! Transfer encodings: base64 and quoted-printable.
use super::*;
use crate::tape::Src;

fn unwrap(r: SutRes<Vec<u8>>, what: &str) -> Result<Vec<u8>, String> {
    r.map_err(|e| format!("{}: {}", what, show_fail(&e)))
}
/// arbitrary data, with runs and boundary sizes
pub fn data(s: &mut Src, max: u32) -> Vec<u8> {
    let n = match s.weighted(&[5, 3, 2]) {
        0 => s.size(8, max.min(80)) as u32,
        1 => s.number(0, max.min(200)),
        _ => s.number(0, max),
    };
    let mode = s.below(4);
    let mut v = Vec::new();
    while (v.len() as u32) < n {
        match mode {
            0 => v.push(s.below(256) as u8),
            1 => {
                let c = s.range(32, 126) as u8;
                v.push(c);
            }
            2 => {
                let c = *s.pick(b" \t\r\n=a.\0\xff-_~\x7f");
                v.push(c);
            }
            _ => {
                let c = if s.pct(30) { *s.pick(b" \t=\xe9\r\n") } else { s.range(33, 126) as u8 };
                let k = s.size(3, 90);
                for _ in 0..k + 1 {
                    v.push(c);
                }
            }
        }
    }
    v.truncate(n as usize);
    if n > 0 && n + 60 < max && s.pct(6) {
        crate::gen::affix(s, &mut v, false);
    }
    if max >= 1000 {
        s.stretch(&mut v, if max == 3000 { 66_000 } else { 140_000 });
    }
    v
}
/// base64 text with line breaks and characters that are to be skipped
pub fn b64_lines(s: &mut Src, d: &[u8], junk: bool) -> Vec<u8> {
    let e = crate::gen::b64_encode(d);
    let mut o = Vec::new();
    let style = s.weighted(&[4, 2, 2, if junk { 3 } else { 0 }]);
    let w = match style {
        0 => 76,
        1 => 4 * s.range(1, 18) as usize,
        _ => 1 + s.below(76) as usize,
    };
    for (i, c) in e.iter().enumerate() {
        if i > 0 && i % w == 0 && style != 3 {
            o.extend_from_slice(b"\r\n");
        }
        if style == 3 && s.pct(12) {
            for _ in 0..1 + s.size(1, 5) {
                let j = match s.weighted(&[4, 2, 1]) {
                    0 => *s.pick(b"\r\n \t"),
                    1 => *s.pick(b"-_!.*\"(){}~,\0\x7f\x80\xff@[`"),
                    _ => {
                        let x = s.below(256) as u8;
                        if x.is_ascii_alphanumeric() || b"+/=".contains(&x) {
                            b'%'
                        } else {
                            x
                        }
                    }
                };
                o.push(j);
            }
        }
        o.push(*c);
    }
    if s.pct(40) {
        o.extend_from_slice(b"\r\n");
    }
    o
}
/// one conforming quoted-printable encoding
pub fn qp_random(s: &mut Src, d: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    let mut line = 0;
    let escape = *s.pick(&[3u32, 0, 20, 60, 100]);
    let breaks = *s.pick(&[2u32, 0, 15]);
    let mut i = 0;
    let hard_ok = !s.pct(30);
    while i < d.len() {
        if hard_ok && d[i] == b'\r' && d.get(i + 1) == Some(&b'\n') && !s.pct(10) {
            // a hard line break; white space may not stand before it
            if matches!(o.last(), Some(b' ' | b'\t')) {
                let c = o.pop().unwrap();
                if line + 2 > 75 {
                    o.extend_from_slice(b"=\r\n");
                }
                o.extend(format!("={:02X}", c).bytes());
            }
            o.extend_from_slice(b"\r\n");
            line = 0;
            i += 2;
            continue;
        }
        let c = d[i];
        let lit = (model::vchar(c) && c != b'=') || model::wsp(c);
        let last = i + 1 == d.len();
        let piece: Vec<u8> = if !lit || s.pct(escape) || (last && model::wsp(c)) {
            let (u, l) = (format!("={:02X}", c), format!("={:02x}", c));
            match s.weighted(&[5, 2, 1]) {
                0 => u.into_bytes(),
                1 => l.into_bytes(),
                _ => vec![b'=', u.as_bytes()[1], l.as_bytes()[2]],
            }
        } else {
            vec![c]
        };
        if line + piece.len() > 75 || s.pct(breaks) {
            o.extend_from_slice(b"=\r\n");
            line = 0;
        }
        line += piece.len();
        o.extend(piece);
        i += 1;
    }
    if s.pct(10) {
        o.extend_from_slice(b"=\r\n");
    }
    o
}
fn mail_with(cte: &str, body: &[u8]) -> Vec<u8> {
    let mut b = format!("From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\nContent-Transfer-Encoding: {}\r\n\r\n", cte).into_bytes();
    b.extend_from_slice(body);
    b
}
/// the decoded value of an email with this transfer encoding
fn via_email(c: &mut Ctx, cte: &str, body: &[u8]) -> SutRes<Vec<u8>> {
    let mut au = Audit::default();
    c.sut.email(&mail_with(cte, body), 0, &mut au).map(|e| e.ent.map(|e| e.value.t).unwrap_or_default())
}
fn via_part(c: &mut Ctx, cte: &str, body: &[u8], owned: bool) -> SutRes<Vec<u8>> {
    let mut au = Audit::default();
    let mut b = format!("Content-Transfer-Encoding: {}\r\n\r\n", cte).into_bytes();
    b.extend_from_slice(body);
    c.sut.raw_entity(&b, owned, 0, &mut au).map(|e| e.value.t)
}
fn unsupported(r: &SutRes<Vec<u8>>) -> bool {
    matches!(r, Err(Fail::Err(ErrV::Other(m))) if m == "unsupported")
}
/// through every door
fn doors(c: &mut Ctx, cte: &str, e: &[u8], want: Option<&[u8]>) -> Result<(), String> {
    let mut au = Audit::default();
    let cased = {
        let mut g = Gen::new(c.s, Knobs::plain());
        String::from_utf8(g.case_mix(cte.as_bytes())).unwrap()
    };
    let mut rs: Vec<(&str, SutRes<Vec<u8>>)> = Vec::new();
    rs.push(("decoder", if cte == "base64" { c.sut.b64_decode(e, &mut au) } else { c.sut.qp_decode(e, &mut au) }));
    if !c.sut.feats().mime {
        return match rs.pop() {
            Some((n, r)) if !unsupported(&r) => verdict(n, r, want),
            _ => Ok(()),
        };
    }
    rs.push(("email", via_email(c, &cased, e)));
    rs.push(("borrowed part", via_part(c, &cased, e, false)));
    rs.push(("owned part", via_part(c, &cased, e, true)));
    for (n, r) in rs {
        if unsupported(&r) {
            continue;
        }
        verdict(n, r, want)?;
    }
    Ok(())
}
fn verdict(n: &str, r: SutRes<Vec<u8>>, want: Option<&[u8]>) -> Result<(), String> {
    match (r, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Ok(g), Some(w)) => Err(clip(format!("{}: got {:?}, expected {:?}", n, esc(&g), esc(w)))),
        (Ok(g), None) => Err(clip(format!("{}: accepted as {:?}", n, esc(&g)))),
        (Err(Fail::Err(_)), None) => Ok(()),
        (Err(e), _) => Err(format!("{}: {}", n, show_fail(&e))),
    }
}

pub static C15: PropDef = PropDef {
    id: "C15",
    run: c15,
    labels: &["data", "incomplete last group", "continues inside a padded group", "edited", "with skipped characters", "line breaks", "unspecified", "encoded word", "one byte over", "two bytes over", "whole groups", "empty"],
    rule: "random data of 0-4000 bytes, rarely up to 140000 (all byte values) encoded by the harness with random line breaks and characters outside the alphabet interspersed, cut or continued after padding, or edited; decoded directly, through Content-Transfer-Encoding in a message and in parts, and in encoded words; non-trivial: at least one encoded character; distinct by encoded bytes",
};
fn c15(c: &mut Ctx) -> Result<(), String> {
    let max = if c.thorough { 20_000 } else { 3000 };
    let d = data(c.s, max);
    c.o.label(match d.len() % 3 {
        0 => 10,
        1 => 8,
        _ => 9,
    });
    if d.is_empty() {
        c.o.label(11);
    }
    let mode = c.s.weighted(&[6, 2, 2, 2]);
    c.o.label(mode as u32);
    let mut e = b64_lines(c.s, &d, true);
    if e.iter().any(|c| !c.is_ascii_alphanumeric() && !b"+/=\r\n".contains(c)) {
        c.o.label(4);
    }
    if e.contains(&b'\n') {
        c.o.label(5);
    }
    let mut want = Some(d.clone());
    match mode {
        1 => {
            // characters of the last group are missing
            let n = 1 + c.s.below(3) as usize;
            let mut left = n;
            while left > 0 {
                match e.pop() {
                    Some(x) if x.is_ascii_alphanumeric() || b"+/=".contains(&x) => left -= 1,
                    Some(_) => {}
                    None => break,
                }
            }
            want = None;
        }
        2 => {
            let p = e.iter().position(|x| *x == b'=');
            if let Some(p) = p {
                // more data where padding was due
                let two = e[p + 1..].contains(&b'=');
                if two {
                    let q = p + 1 + e[p + 1..].iter().position(|x| *x == b'=').unwrap();
                    e[q] = *c.s.pick(b"Ab9/");
                } else if c.s.pct(50) {
                    e.insert(p, b'=');
                    let at = p + 1;
                    e[at] = *c.s.pick(b"Ab9/");
                } else {
                    e.insert(p, *c.s.pick(b"Ab9/"));
                }
            }
            want = None;
        }
        3 => {
            mutate(c.s, &mut e);
            want = None;
        }
        _ => {}
    }
    let r = model::b64_decode(&e);
    if mode == 0 && (r.gray || r.data.as_deref() != Some(&d[..])) {
        return Err("HARNESS: the reference decoder does not invert the encoder".into());
    }
    if mode != 0 {
        want = r.data.clone();
    }
    c.o.input = e.clone();
    c.o.nontrivial = !e.is_empty();
    if r.gray {
        c.o.gray = true;
        c.o.label(6);
        return Ok(());
    }
    doors(c, "base64", &e, want.as_deref())?;
    // as an encoded word
    if mode == 0 && d.len() <= 45 && !d.is_empty() && c.s.pct(40) && c.sut.feats().mime && c.sut.feats().subject {
        c.o.label(7);
        let m = format!("Subject:=?iso-8859-1?b?{}?=\r\n", String::from_utf8(crate::gen::b64_encode(&d)).unwrap()).into_bytes();
        let f = c.sut.feats();
        let mut au = Audit::default();
        if let MRes::Ok(w) = model::message(&m, f) {
            if !w.gray() {
                let g = c.sut.message(&m, &mut au).map_err(|e| show_fail(&e))?;
                if g.items != w.items.iter().map(|i| i.item.clone()).collect::<Vec<_>>() {
                    return Err(clip(format!("encoded word: got {:?}, expected {:?}", g.items, w.items)));
                }
            }
        }
    }
    Ok(())
}

pub static C16: PropDef = PropDef {
    id: "C16",
    run: c16,
    labels: &["conforming", "malformed pieces inserted", "edited", "line breaks", "soft line breaks", "lower-case hex", "unspecified", "8-bit data", "replacement character"],
    rule: "random data of 0-3000 bytes, rarely up to 66000, in a random conforming quoted-printable encoding (choice of escapes, hex case, soft breaks, hard line breaks), with malformed escapes or forbidden bytes inserted, or edited; decoded directly and through Content-Transfer-Encoding in a message and in parts; non-trivial: at least one encoded character; distinct by encoded bytes",
};
fn c16(c: &mut Ctx) -> Result<(), String> {
    let mode = c.s.weighted(&[6, 4, 2]);
    c.o.label(mode as u32);
    let max = if mode == 0 {
        if c.thorough { 20_000 } else { 3000 }
    } else {
        400
    };
    let d = data(c.s, max);
    if d.iter().any(|x| *x > 127) {
        c.o.label(7);
    }
    let mut e;
    let mut want = Some(d.clone());
    if mode == 1 {
        // conforming pieces with bad ones between them
        e = Vec::new();
        let mut w = Vec::new();
        let n = 1 + c.s.size(3, 12);
        for _ in 0..n {
            let mut d = data(c.s, 30);
            // no white space or line break at the edges, no soft break at the end
            while matches!(d.last(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
                d.pop();
            }
            while matches!(d.first(), Some(b'\n')) {
                d.remove(0);
            }
            let mut p = qp_random(c.s, &d);
            if p.ends_with(b"=\r\n") {
                p.truncate(p.len() - 3);
            }
            if p.contains(&b'\r') && d.len() > 30 {
                p.clear();
                d.clear();
            }
            e.extend(p);
            w.extend(d);
            match c.s.weighted(&[3, 3]) {
                0 => {
                    // = and two characters that are not both hex digits
                    let good = *c.s.pick(b"0aF9");
                    let bad = *c.s.pick(b"GgzxX!/:@`_-~");
                    let p = match c.s.below(3) {
                        0 => [b'=', good, bad],
                        1 => [b'=', bad, good],
                        _ => [b'=', bad, bad],
                    };
                    e.extend(p);
                    w.extend_from_slice(model::FFFD);
                }
                _ => {
                    let b = match c.s.weighted(&[4, 2]) {
                        0 => c.s.range(0x7f, 0xff) as u8,
                        _ => *c.s.pick(b"\0\x01\x08\x0b\x1b\x1f"),
                    };
                    e.push(b);
                    w.extend_from_slice(model::FFFD);
                }
            }
        }
        want = Some(w);
    } else {
        e = qp_random(c.s, &d);
    }
    if e.windows(3).any(|w| w == b"=\r\n") {
        c.o.label(4);
    } else if e.windows(2).any(|w| w == b"\r\n") {
        c.o.label(3);
    }
    if e.windows(2).any(|w| w[0] == b'=' && w[1].is_ascii_lowercase()) {
        c.o.label(5);
    }
    if mode == 2 {
        mutate(c.s, &mut e);
        e.truncate(4000);
    }
    let (m, gray) = model::qp_decode(&e);
    if mode != 2 && (gray || Some(&m) != want.as_ref()) {
        return Err(clip(format!("HARNESS: reference decoder (gray {}) reads {:?} for {:?}, expected {:?}", gray, esc(&m), esc(&e), want.map(|w| esc(&w)))));
    }
    if m.windows(3).any(|w| w == model::FFFD) {
        c.o.label(8);
    }
    c.o.input = e.clone();
    c.o.nontrivial = !e.is_empty();
    if gray {
        c.o.gray = true;
        c.o.label(6);
        return Ok(());
    }
    doors(c, "quoted-printable", &e, Some(&m))
}

pub static C24: PropDef = PropDef {
    id: "C24",
    run: c24,
    labels: &["base64", "quoted-printable", "short", "about one line", "several lines", "white space at line ends"],
    rule: "random data of 0-3000 bytes, rarely up to 66000, biased to line-length boundaries, white space runs and line breaks, encoded by the crate's encoders; non-trivial: at least one byte; distinct by data",
};
fn c24(c: &mut Ctx) -> Result<(), String> {
    let mut d = match c.s.weighted(&[3, 3, 2]) {
        0 => data(c.s, 3000),
        1 => {
            // around line lengths
            let n = c.s.number(50, 160) as usize;
            let ch = *c.s.pick(b"a =\t\xe9.");
            let mut v = vec![ch; n];
            for _ in 0..c.s.size(2, 10) {
                let i = c.s.below(n as u32) as usize;
                v[i] = *c.s.pick(b"=\r\n \tz\xff\0");
            }
            v
        }
        _ => data(c.s, 120),
    };
    if c.s.pct(20) {
        for _ in 0..c.s.size(2, 6) {
            let i = c.s.below(d.len() as u32 + 1) as usize;
            let t = *c.s.pick(&[" \r\n", "\t\r\n", "\r\n", "=\r\n", " =\r\n"]);
            let tail = d.split_off(i);
            d.extend_from_slice(t.as_bytes());
            d.extend(tail);
            c.o.label(5);
        }
    }
    c.o.input = d.clone();
    c.o.nontrivial = !d.is_empty();
    c.o.label(if d.len() < 50 {
        2
    } else if d.len() < 160 {
        3
    } else {
        4
    });
    let mut au = Audit::default();
    // base64
    let r = c.sut.b64_encode(&d);
    if !unsupported(&r) {
        c.o.label(0);
        let e = unwrap(r, "base64 encoder")?;
        let t = e.strip_suffix(b"\r\n").unwrap_or(&e);
        for l in lines(t) {
            if l.len() > 76 {
                return Err(format!("base64 line of {} characters", l.len()));
            }
            if let Some(x) = l.iter().find(|x| !(x.is_ascii_alphanumeric() || b"+/=".contains(x))) {
                return Err(format!("base64 output contains byte {:#x}", x));
            }
        }
        let clean: Vec<u8> = e.iter().copied().filter(|x| !b"\r\n".contains(x)).collect();
        if clean != crate::gen::b64_encode(&d) {
            return Err(clip(format!("not the base64 encoding: {:?}", esc(&e))));
        }
        let back = unwrap(c.sut.b64_decode(&e, &mut au), "base64 decoder")?;
        if back != d {
            return Err(clip(format!("decoding its own base64 gives {:?}", esc(&back))));
        }
    }
    let r = c.sut.qp_encode(&d);
    if !unsupported(&r) {
        c.o.label(1);
        let e = unwrap(r, "quoted-printable encoder")?;
        for l in lines(&e) {
            if l.len() > 76 {
                return Err(clip(format!("quoted-printable line of {} characters: {:?}", l.len(), esc(l))));
            }
            if matches!(l.last(), Some(b' ' | b'\t')) {
                return Err(clip(format!("white space at the end of the line {:?}", esc(l))));
            }
            let mut i = 0;
            while i < l.len() {
                let x = l[i];
                if x == b'=' {
                    if i + 1 == l.len() {
                        break; // soft line break
                    }
                    if i + 2 >= l.len() || model::hex(l[i + 1]).is_none() || model::hex(l[i + 2]).is_none() || l[i + 1..i + 3].iter().any(|c| c.is_ascii_lowercase()) {
                        return Err(clip(format!("bad escape in {:?}", esc(l))));
                    }
                    i += 3;
                } else if model::vchar(x) || model::wsp(x) {
                    i += 1;
                } else {
                    return Err(clip(format!("byte {:#x} written literally in {:?}", x, esc(l))));
                }
            }
        }
        let (m, _) = model::qp_decode(&e);
        if m != d {
            return Err(clip(format!("a conforming decoder reads {:?} from {:?}", esc(&m), esc(&e))));
        }
        let back = unwrap(c.sut.qp_decode(&e, &mut au), "quoted-printable decoder")?;
        if back != d {
            return Err(clip(format!("decoding its own quoted-printable {:?} gives {:?}", esc(&e), esc(&back))));
        }
    }
    Ok(())
}
fn lines(t: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut a = 0;
    let mut i = 0;
    while i + 1 < t.len() {
        if t[i] == b'\r' && t[i + 1] == b'\n' {
            v.push(&t[a..i]);
            a = i + 2;
            i = a;
        } else {
            i += 1;
        }
    }
    v.push(&t[a..]);
    v
}
