//! No crash, no bad text, no dependence on anything but the bytes.
use super::mime::any_mail;
use super::*;
use crate::sys::Fenced;
use crate::tape::Src;

/// what a call may allocate: fixed part and per input byte
const MEM_BASE: usize = 1 << 16;
const MEM_PER: usize = 256;

fn mem(what: &str, n: usize, au: &Audit) -> Result<(), String> {
    if au.peak > MEM_BASE + MEM_PER * n {
        return Err(format!("{} allocated {} bytes for an input of {} bytes", what, au.peak, n));
    }
    Ok(())
}
fn no_panic<T>(what: &str, r: SutRes<T>) -> Result<Option<T>, String> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(Fail::Err(_)) => Ok(None),
        Err(Fail::Panic(m)) => Err(format!("{} panicked: {}", what, m)),
    }
}
pub fn depth_of(e: &Ent) -> usize {
    match e.node.as_deref() {
        Some(Node::Multi { parts, .. }) => 1 + parts.iter().map(depth_of).max().unwrap_or(0),
        _ => 0,
    }
}
pub const SNIPPETS: &[&str] = &[
    "From: a@b.c\r\n", "Date: 5 May 2003 18:58:34 +0000\r\n", "Subject: =?utf-8?B?", "=?iso-8859-7?q?=FF?= ", "=?gb2312?b?gYGB?=", "=?iso-6937?q?=C1?=", "=?iso-8859-12?q?=80?=", "\r\n", "\r\n\r\n", " ", "\t", "(", ")", "<", ">", "@", ",", ";", ":",
    "\"", "\\", "[", "]", "=", "?", "*", "%", "'", "--", "--b", "--b--", "\r", "\n", "Received: from x.y by z.w; 5 May 2003 18:58:34 +0000\r\n", "Return-Path: <>\r\n", "Resent-To: a@b.c\r\n",
    "Content-Type: multipart/mixed; boundary=b\r\n", "Content-Type: text/plain; charset=", "utf-8", "gb2312", "iso-6937", "iso-8859-8", "Content-Transfer-Encoding: base64\r\n", "Content-Transfer-Encoding: quoted-printable\r\n",
    "Content-Disposition: attachment; filename*0*=utf-8''", "*1*=", "*0=", "*=", "%E9", "%", "filename", "; ", "To: ", "Cc: g:", "Bcc:", "Message-ID: <a@b>", "References: ", "Keywords: ", "MIME-Version: 1.0\r\n", "MIME-Version: 999.256",
    "Date: Mon, 99 May 99999999999999999999 25:61:61 +9999\r\n", "Comments:", "X:", "creation-date=\"", "Sender: ",
];
pub fn snippets(s: &mut Src, n: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..n {
        match s.weighted(&[8, 3, 2]) {
            0 => o.extend_from_slice(s.pick(SNIPPETS).as_bytes()),
            1 => o.push(s.below(256) as u8),
            _ => {
                let v = s.dict_bytes(30, |_| true);
                o.extend(v);
            }
        }
    }
    o
}
pub fn rep(t: &[u8], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len() * n);
    for _ in 0..n {
        v.extend_from_slice(t);
    }
    v
}
/// nested and repeated constructs at sizes that ordinary mail never reaches
pub fn extreme(s: &mut Src, big: bool) -> (Vec<u8>, &'static str) {
    let n = if big { s.number(20_000, 400_000) } else { s.number(100, 20_000) } as usize;
    let m = n / 12;
    let head = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
    let mut o = head.clone();
    match s.below(18) {
        16 | 17 => {
            // many small things next to one that takes most of the room
            let m = s.number(20, if big { 1500 } else { 250 }) as usize;
            let n = n.min(60_000);
            let fill = |s: &mut Src, n: usize| match s.below(3) {
                0 => rep(b"a", n.min(900)),
                1 => rep(b"line of text\r\n", n / 14),
                _ => rep(b"a\r\n", n / 3),
            };
            let (p, u, q, r): (&[u8], &[u8], &[u8], &[u8]) = *s.pick(&[
                (&b"Content-Type: multipart/mixed; boundary=b\r\n\r\n"[..], &b"--b\r\n\r\nx\r\n"[..], &b"--b\r\n\r\n"[..], &b"\r\n--b--"[..]),
                (b"Content-Type: multipart/mixed; boundary=b\r\n\r\n", b"--b\r\nContent-Type: text/html\r\nX: y\r\n\r\nx\r\n", b"--b\r\n\r\n", b"\r\n--b--"),
                (b"Content-Type: multipart/mixed; boundary=b\r\n\r\n", b"--b\r\n\r\nx\r\n", b"--b--\r\n", b""),
                (b"", b"X: y\r\n", b"\r\n", b""),
                (b"", b"Comments: y\r\n", b"\r\n", b""),
                (b"", b"To: a@b\r\n", b"\r\n", b""),
                (b"To: a@b", b", a@b", b"\r\n\r\n", b""),
                (b"To: g:", b"a@b, ", b"a@b;\r\n\r\n", b""),
                (b"References:", b" <a@b>", b"\r\n\r\n", b""),
                (b"Keywords: a", b",a", b"\r\n\r\n", b""),
                (b"Content-Type: text/plain", b";a=b", b"\r\n\r\n", b""),
                (b"Content-Type: text/plain; charset=utf-8", b";a*=utf-8''b", b"\r\n\r\n", b""),
                (b"Content-Disposition: inline", b";a=b", b"\r\n\r\n", b""),
                (b"Subject:", b" =?utf-8?Q?a?=", b"\r\n\r\n", b""),
                (b"Subject:", b" a", b"\r\n\r\n", b""),
            ]);
            o.extend_from_slice(p);
            let f = fill(s, n);
            if s.pct(25) && p.ends_with(b"\r\n\r\n") {
                // the large one first
                o.extend_from_slice(b"--b\r\n\r\n");
                o.extend(f);
                o.extend_from_slice(b"\r\n");
                o.extend(rep(u, m));
                o.extend_from_slice(b"--b--");
            } else {
                o.extend(rep(u, m));
                o.extend_from_slice(q);
                o.extend(f);
                o.extend_from_slice(r);
            }
            (o, "many small things and one large")
        }
        0 => {
            let closed = s.pct(50);
            o.extend_from_slice(*s.pick(&[&b"To: "[..], b"Date: ", b"Message-ID: ", b"Keywords: ", b"Content-Type: ", b"MIME-Version: ", b"Cc: a@b.c", b"Content-Disposition: "]));
            o.extend(rep(b"(", n));
            if closed {
                o.extend(rep(b")", n));
            }
            o.extend_from_slice(b"a@b.c\r\n\r\n");
            (o, "nested comments")
        }
        1 => {
            o.extend_from_slice(b"To: ");
            o.extend(rep(b"(\\()", m));
            o.extend_from_slice(b" a@b.c\r\n");
            (o, "many comments")
        }
        2 => {
            o.extend_from_slice(b"To: ");
            o.extend(rep(b"a@b.c, ", m));
            o.extend_from_slice(b"a@b.c\r\n");
            (o, "many addresses")
        }
        3 => {
            o.extend_from_slice(b"Subject: ");
            o.extend(rep(b"=?utf-8?q?=C3=A9?= ", m / 2));
            o.extend_from_slice(b"\r\n");
            (o, "many encoded words")
        }
        4 => {
            o.extend(rep(b"X: y\r\n", m));
            (o, "many headers")
        }
        5 => {
            // nested multiparts
            let d = (m / 8).min(400).max(1);
            let mut inner = b"Content-Type: text/plain\r\n\r\nhi".to_vec();
            for i in 0..d {
                let mut x = format!("Content-Type: multipart/mixed; boundary=b{}\r\n\r\n--b{}\r\n", i, i).into_bytes();
                x.extend(inner);
                x.extend(format!("\r\n--b{}--\r\n", i).bytes());
                inner = x;
            }
            o.extend(inner);
            (o, "nested multiparts")
        }
        6 => {
            o.extend_from_slice(b"Content-Type: multipart/mixed; boundary=b\r\n\r\n");
            o.extend(rep(b"--b\r\n\r\nx\r\n", m));
            o.extend_from_slice(b"--b--");
            (o, "many parts")
        }
        7 => {
            o.extend_from_slice(*s.pick(&[&b"Content-Type: a/b"[..], b"Content-Disposition: a"]));
            let count = if s.pct(60) { 250 + s.below(12) as usize } else { (m / 6).min(3000) };
            // encoded: all, none, the first only, every other
            let mode = s.below(4) as usize;
            let name = *s.pick(&["n", "filename", "boundary"]);
            for i in 0..count {
                let e = mode == 0 || mode == 2 && i == 0 || mode == 3 && i % 2 == 0;
                o.extend(format!(";{}*{}{}={}{}", name, i, if e { "*" } else { "" }, if i == 0 && e { *s.pick(&["utf-8''", "x''", "utf-8'en'"]) } else { "" }, if e { "%41" } else { "a" }).bytes());
            }
            o.extend_from_slice(b"\r\n");
            (o, "many segments")
        }
        8 => {
            o.extend_from_slice(b"Subject:");
            o.extend(rep(b"\r\n a", m));
            o.extend_from_slice(b"\r\n");
            (o, "many folds")
        }
        9 => {
            o.extend_from_slice(b"To: ");
            o.extend(rep(b"\"\\a ", m));
            o.extend_from_slice(b"\r\n");
            (o, "quotes")
        }
        10 => {
            o.extend_from_slice(b"Content-Transfer-Encoding: base64\r\n\r\n");
            o.extend(rep(b"QUJD", n / 4));
            (o, "long base64")
        }
        11 => {
            o.extend_from_slice(b"Content-Transfer-Encoding: quoted-printable\r\n\r\n");
            let k = (n / 3).min(20_000);
            let t = *s.pick(&["=41", "=zz", "=\r\n", "\u{e9}"]);
            o.extend(rep(t.as_bytes(), k));
            (o, "long quoted-printable")
        }
        12 => {
            let mut o = Vec::new();
            let t = *s.pick(&["Received: from a.b by c.d; 5 May 2003 18:58:34 +0000\r\n", "Return-Path: <>\r\nReceived: ;5 May 2003 18:58:34 +0000\r\n"]);
            o.extend(rep(t.as_bytes(), m / 6));
            o.extend(head);
            (o, "many trace lines")
        }
        13 => {
            o.extend_from_slice(b"References: ");
            o.extend(rep(b"<a@b>", m));
            o.extend_from_slice(b"\r\n");
            (o, "many identifiers")
        }
        14 => {
            o.extend_from_slice(*s.pick(&[&b"Subject: "[..], b"To: ", b"Keywords: ", b"Message-ID: <", b"Content-Type: ", b"X-", b"Date: ", b"Content-Type: a/b; c=", b"Content-Type: a/b; c=\"", b"To: a@["]));
            let ch = *s.pick(b"a. @\"\\(=?1");
            o.extend(rep(&[ch], n));
            o.extend_from_slice(b"\r\n\r\n");
            (o, "one long run")
        }
        _ => {
            let t = snippets(s, 3);
            o.extend(rep(&t, (n / (t.len() + 1)).min(5000)));
            (o, "repeated snippets")
        }
    }
}
pub fn hostile(c: &mut Ctx) -> (Vec<u8>, u32) {
    match c.s.weighted(&[60, 60, 40, 12, 14, 1, 80]) {
        0 => {
            let mut b = any_mail(c, 3, 8, 10);
            mutate(c.s, &mut b);
            (b, 0)
        }
        1 => {
            let n = 1 + c.s.size(12, 120);
            (snippets(c.s, n), 1)
        }
        2 => {
            let n = 1 + c.s.size(8, 60);
            let mut b = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
            b.extend(snippets(c.s, n));
            (b, 1)
        }
        3 => {
            let n = c.s.size(20, 300);
            ((0..n).map(|_| c.s.below(256) as u8).collect(), 2)
        }
        4 => (extreme(c.s, false).0, 3),
        6 => {
            // one header at a time, nearly right: what follows it is not lost behind another fault
            let k = knobs(c, 4, 8);
            let mut mail = Mail::default();
            let mut b = Vec::new();
            if c.s.pct(70) {
                b.extend_from_slice(b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n");
            }
            let t = *c.s.pick(&KNOWN[..]);
            if c.s.pct(15) {
                mail.trace_block(c.s, k);
            } else {
                mail.known(c.s, k, t);
            }
            let mut h = mail.b.clone();
            match c.s.below(4) {
                0 => edit_number(c.s, &mut h),
                1 => {
                    let i = c.s.below(h.len() as u32) as usize;
                    h[i] ^= 1 << c.s.below(8);
                }
                2 => {
                    let i = c.s.below(h.len() as u32) as usize;
                    let x = *c.s.pick(b"\r\n \t()<>@,;:\\\"[]=?*%'-.+/_a0\0\x7f\x80\xc3\xff");
                    if c.s.pct(50) { h[i] = x } else { h.insert(i, x) }
                }
                _ => {
                    let n = c.s.below(h.len() as u32) as usize;
                    h.truncate(n);
                }
            }
            if c.s.pct(25) {
                edit_number(c.s, &mut h);
            }
            b.extend(h);
            if c.s.pct(30) {
                b.extend_from_slice(b"\r\nbody");
            }
            (b, 13)
        }
        _ => (extreme(c.s, true).0, 4),
    }
}

pub static C01: PropDef = PropDef {
    id: "C01",
    run: c01,
    labels: &["mutated mail", "syntax fragments", "random bytes", "large construct", "huge construct", "accepted", "rejected", "email accepted", "multipart", "part accepted", "base64 accepted", "with error inside an entity", "8-bit", "one header, one fault"],
    rule: "arbitrary byte strings: mutated mails with entity trees, concatenated syntax fragments and bytes, random bytes, single headers with one fault or with a number at a machine boundary, and constructs nested or repeated up to 400000 times; every public entry point is called on the bytes in a buffer that ends at an unmapped page, entities decoded to depth 500; non-trivial: the input is accepted as a message or part, or longer than 20 bytes; distinct by input bytes",
};
fn c01(c: &mut Ctx) -> Result<(), String> {
    let (mut b, l) = hostile(c);
    c.o.label(l);
    if c.s.pct(20) {
        // cut anywhere: what is missing lies beyond the fence
        let n = c.s.below(b.len() as u32 + 1) as usize;
        b.truncate(n);
    }
    c.o.input = b.clone();
    c.o.nontrivial = b.len() > 20;
    if b.iter().any(|x| *x > 127) {
        c.o.label(12);
    }
    let n = b.len();
    let fence = Fenced::new(&b, true);
    let d = fence.get();
    let mut au = Audit::default();
    let r = no_panic("parse_message", c.sut.message(d, &mut au))?;
    c.o.label(if r.is_some() { 5 } else { 6 });
    if r.is_some() {
        c.o.nontrivial = true;
    }
    mem("parse_message", n, &au)?;
    drop(r);
    let mut au = Audit::default();
    if let Some(e) = no_panic("Email::parse and the decoding of its entities", c.sut.email(d, 500, &mut au))? {
        c.o.label(7);
        if let Some(e) = &e.ent {
            if depth_of(e) > 0 {
                c.o.label(8);
            }
            if matches!(e.node.as_deref(), Some(Node::Err)) {
                c.o.label(11);
            }
        }
    }
    mem("Email::parse", n, &au)?;
    let mut au = Audit::default();
    no_panic("Email::try_from", c.sut.email_try_from(d, &mut au))?;
    no_panic("the error text", c.sut.error_strings(d))?;
    if l < 4 {
        no_panic("conversion to owned values", c.sut.owned_items(d))?;
        no_panic("cloning", c.sut.cloned_entity(d, 20))?;
        no_panic("is_composite_type", c.sut.composite(d))?;
    }
    let mut au = Audit::default();
    if no_panic("decode_base64", c.sut.b64_decode(d, &mut au))?.is_some() {
        c.o.label(10);
    }
    mem("decode_base64", n, &au)?;
    let d32 = &d[n - n.min(32_768)..];
    let mut au = Audit::default();
    no_panic("decode_qp", c.sut.qp_decode(d32, &mut au))?;
    mem("decode_qp", n, &au)?;
    if n <= 4096 {
        no_panic("encode_base64", c.sut.b64_encode(d))?;
        no_panic("encode_qp", c.sut.qp_encode(d))?;
    }
    for owned in [false, true] {
        let mut au = Audit::default();
        if no_panic("a MIME part", c.sut.raw_entity(d, owned, 500, &mut au))?.is_some() {
            c.o.label(9);
            c.o.nontrivial = true;
        }
        mem("a MIME part", n, &au)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
pub static C02: PropDef = PropDef {
    id: "C02",
    run: c02,
    labels: &["mutated mail", "syntax fragments", "random bytes", "large construct", "huge construct", "mail as built", "accepted", "rejected", "email accepted", "non-ASCII text returned", "buffer reused", "hostile surroundings", "other parses before"],
    rule: "valid and mutated mails, fragments and bytes, each parsed in a heap buffer, at both edges of an unmapped page, inside hostile surroundings (digits, continuations, quotes before and after), in a reused buffer and after other parses; non-trivial: accepted as a message; distinct by input bytes",
};
#[derive(PartialEq, Debug)]
struct Seen {
    msg: Result<(Msg, Vec<(Vec<u8>, String)>), String>,
    email: Result<(EmailV, Vec<(Vec<u8>, String)>), String>,
}
fn audit(what: &str, au: &Audit, mime: bool) -> Result<(), String> {
    if let Some(t) = au.bad_utf8.first() {
        return Err(clip(format!("{}: a string that is not UTF-8: {:?}", what, t)));
    }
    if !mime {
        if let Some(t) = au.non_ascii.first() {
            return Err(clip(format!("{}: a string that is not ASCII: {:?}", what, esc(t))));
        }
    }
    if let Some(t) = au.ext.first() {
        return Err(clip(format!("{}: a reference outside the buffer: {:?}", what, esc(t))));
    }
    Ok(())
}
fn see(c: &mut Ctx, d: &[u8], depth: usize, trysame: bool) -> Result<Seen, String> {
    let mime = c.sut.feats().mime;
    let mut au = Audit::default();
    let flat = |v: &mut Vec<(Vec<u8>, String)>, s: &S| v.push((s.t.clone(), format!("{:?}", if s.t.is_empty() { Prov::Any } else { s.p })));
    let msg = match c.sut.message(d, &mut au) {
        Ok(m) => {
            let mut v = Vec::new();
            m.each(&mut |s| flat(&mut v, s));
            Ok((m, v))
        }
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(e) => Err(show_fail(&e)),
    };
    audit("parse_message", &au, mime)?;
    let mut au = Audit::default();
    let r = if trysame { c.sut.email_try_from(d, &mut au) } else { c.sut.email(d, depth, &mut au) };
    let email = match r {
        Ok(m) => {
            let mut v = Vec::new();
            m.each(&mut |s| flat(&mut v, s));
            Ok((m, v))
        }
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(e) => Err(show_fail(&e)),
    };
    audit("Email::parse", &au, mime)?;
    Ok(Seen { msg, email })
}
fn same(what: &str, a: &Seen, b: &Seen) -> Result<(), String> {
    if a.msg != b.msg {
        return Err(clip(format!("parse_message differs {}: {:?} and {:?}", what, b.msg, a.msg)));
    }
    if a.email != b.email {
        return Err(clip(format!("Email::parse differs {}: {:?} and {:?}", what, b.email, a.email)));
    }
    Ok(())
}
fn c02(c: &mut Ctx) -> Result<(), String> {
    let b = if c.s.pct(45) {
        c.o.label(5);
        any_mail(c, 4, 10, 15)
    } else {
        let (b, l) = match c.s.weighted(&[5, 3, 1, 1]) {
            0 => {
                let mut b = any_mail(c, 3, 8, 10);
                mutate(c.s, &mut b);
                (b, 0)
            }
            1 => {
                let mut b = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
                let n = 1 + c.s.size(8, 60);
                b.extend(snippets(c.s, n));
                (b, 1)
            }
            2 => {
                let n = c.s.size(20, 300);
                ((0..n).map(|_| c.s.below(256) as u8).collect(), 2)
            }
            _ => (extreme(c.s, false).0, 3),
        };
        c.o.label(l);
        b
    };
    let mut b = b;
    if c.s.pct(10) {
        let n = c.s.below(b.len() as u32 + 1) as usize;
        b.truncate(n);
    }
    c.o.input = b.clone();
    let depth = if b.len() > 5000 { 1 } else { 4 };
    let base = see(c, &b, depth, false)?;
    c.o.nontrivial = base.msg.is_ok();
    c.o.label(if base.msg.is_ok() { 6 } else { 7 });
    if base.email.is_ok() {
        c.o.label(8);
    }
    if let Ok((_, v)) = &base.msg {
        if v.iter().any(|x| !x.0.is_ascii()) {
            c.o.label(9);
        }
    }
    // TryFrom is the same parse
    if depth > 0 {
        let shallow = see(c, &b, 0, false)?;
        let t = see(c, &b, 0, true)?;
        same("through TryFrom", &shallow, &t)?;
    }
    {
        let f = Fenced::new(&b, true);
        let x = see(c, f.get(), depth, false)?;
        same("in a buffer at the end of a page", &base, &x)?;
    }
    {
        let f = Fenced::new(&b, false);
        let x = see(c, f.get(), depth, false)?;
        same("in a buffer at the start of a page", &base, &x)?;
    }
    {
        c.o.label(11);
        const AROUND: &[&str] = &["0", "9999", "a", "\"", ")", "(", "\r\n continuation\r\n", "\r\nFrom: x@y.z\r\n", ">", "?=", "==", "--b\r\n", "\\", "=", "\u{e9}", "\r\n\r\n", "]", ";"];
        let before = c.s.pick(AROUND).repeat(1 + c.s.below(3) as usize);
        let after = c.s.pick(AROUND).repeat(1 + c.s.below(3) as usize);
        let mut v = before.clone().into_bytes();
        v.extend_from_slice(&b);
        v.extend_from_slice(after.as_bytes());
        v.extend_from_slice(after.as_bytes());
        let x = see(c, &v[before.len()..before.len() + b.len()], depth, false)?;
        same("inside other bytes", &base, &x)?;
    }
    // the same memory held another message before
    {
        c.o.label(10);
        let mut v = b.clone();
        let mut other = any_mail(c, 2, 5, 5);
        other.resize(b.len(), b'x');
        v.copy_from_slice(&other);
        see(c, &v, depth, false)?;
        v.copy_from_slice(&b);
        c.o.label(12);
        let x = see(c, &v, depth, false)?;
        same("in a buffer that held another message", &base, &x)?;
    }
    Ok(())
}
