//! Relations between what the entry points and neighbouring headers report; no reference model is involved,
//! so they are settled for every input, also where a reading is left open.
use super::mime::any_mail;
use super::robust::*;
use super::*;
use crate::model::Tr;

fn get(c: &mut Ctx, b: &[u8]) -> SutRes<Msg> {
    let mut au = Audit::default();
    c.sut.message(b, &mut au)
}
fn outcome(r: SutRes<Msg>) -> Result<Option<Msg>, String> {
    match r {
        Ok(m) => Ok(Some(m)),
        Err(Fail::Err(_)) => Ok(None),
        Err(Fail::Panic(m)) => Err(format!("panic: {}", m)),
    }
}
/// starts of the header lines, and the end of the header section
fn cuts(b: &[u8]) -> (Vec<usize>, usize) {
    let mut v = vec![0];
    if b.starts_with(b"\r\n") {
        return (v, 0);
    }
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i..].starts_with(b"\r\n") {
            i += 2;
            if b[i..].starts_with(b"\r\n") {
                return (v, i);
            }
            if i < b.len() && !model::wsp(b[i]) {
                v.push(i);
            }
            continue;
        }
        i += 1;
    }
    (v, b.len())
}
fn traceish(b: &[u8]) -> bool {
    let n: Vec<u8> = b.iter().take_while(|c| **c != b':').take(40).map(|c| c.to_ascii_lowercase()).collect();
    n == b"received" || n == b"return-path" || n.starts_with(b"resent-")
}
/// messages of every kind, most of them accepted
fn messages(c: &mut Ctx) -> Vec<u8> {
    match c.s.weighted(&[40, 30, 15, 10, 5]) {
        0 => {
            c.o.label(0);
            any_mail(c, 5, 12, 12)
        }
        1 => {
            // single headers edited in place
            c.o.label(1);
            let k = knobs(c, 12, 10);
            let mut mail = Mail::default();
            while c.s.pct(25) {
                mail.trace_block(c.s, k);
            }
            for _ in 0..1 + c.s.size(4, 14) {
                if c.s.pct(15) {
                    mail.unknown(c.s, k);
                    continue;
                }
                let t = *c.s.pick(&KNOWN[..]);
                if mail.lines.iter().any(|l| l.lname().eq_ignore_ascii_case(t)) && !c.s.pct(4) {
                    continue;
                }
                mail.known(c.s, k, t);
                let i = mail.lines.len() - 1;
                match c.s.weighted(&[5, 4, 1]) {
                    0 => {}
                    1 => {
                        let mut v = mail.value(&mail.lines[i]).to_vec();
                        tweak(c.s, &mut v);
                        set_value(&mut mail, i, &v);
                    }
                    _ => {
                        let o = *c.s.pick(&KNOWN[..]);
                        let mut g = Gen::new(c.s, k);
                        g.put(b" ");
                        g.value(&o.to_ascii_lowercase());
                        let v = g.o;
                        set_value(&mut mail, i, &v);
                    }
                }
            }
            if !c.s.pct(15) {
                mail.need(c.s);
            }
            small_body(&mut mail, c);
            mail.b
        }
        2 => {
            c.o.label(2);
            let mut b = any_mail(c, 4, 12, 12);
            mutate(c.s, &mut b);
            b
        }
        3 => {
            c.o.label(3);
            let mut b = if c.s.pct(60) { b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec() } else { vec![] };
            let n = 1 + c.s.size(8, 60);
            b.extend(snippets(c.s, n));
            b
        }
        _ => {
            c.o.label(4);
            hostile(c).0
        }
    }
}

// ---------------------------------------------------------------- C31
pub static C31: PropDef = PropDef {
    id: "C31",
    run: c31,
    labels: &["mail as built", "headers edited", "mutated mail", "fragments", "hostile", "accepted", "rejected", "one side rejected", "first side empty", "second side without headers", "with trace blocks", "with body", "split into single headers", "headers of two mails"],
    rule: "a message (as built, edited, mutated, fragments, hostile bytes) cut between two header lines, each half parsed alone and compared with the whole, or the halves of two messages put together; non-trivial: both halves hold a header line; distinct by the message and the place",
};
fn c31(c: &mut Ctx) -> Result<(), String> {
    let mut b = messages(c);
    if b.len() > 60_000 {
        b.truncate(60_000);
    }
    let two = c.s.pct(30);
    if two {
        // the headers of another message before it
        c.o.label(13);
        let o = messages(c);
        let (_, end) = cuts(&o);
        let mut o = o[..end.min(60_000)].to_vec();
        if o.is_empty() || o.ends_with(b"\r\n") {
            o.extend(b);
            b = o;
        }
    }
    c.o.input = b.clone();
    let (lines, end) = cuts(&b);
    let whole = outcome(get(c, &b))?;
    c.o.label(if whole.is_some() { 5 } else { 6 });
    let all: Vec<usize> = lines.iter().copied().filter(|i| *i < end && !traceish(&b[*i..])).chain(std::iter::once(end)).collect();
    let split_all = c.s.pct(15) && lines.len() <= 30;
    let at: Vec<usize> = if split_all {
        c.o.label(12);
        all
    } else {
        vec![all[c.s.below(all.len() as u32) as usize]]
    };
    for i in at {
        // a body may follow the second half
        let (x, y) = (&b[..i], &b[i..]);
        if i > 0 && !x.ends_with(b"\r\n") {
            continue;
        }
        c.o.nontrivial |= i > 0 && i < end;
        if i == 0 {
            c.o.label(8);
        }
        if i == end {
            c.o.label(9);
        }
        let p = outcome(get(c, x))?;
        let q = outcome(get(c, y))?;
        match (&whole, p, q) {
            (Some(w), Some(p), Some(q)) => {
                if w.body.is_some() {
                    c.o.label(11);
                }
                if matches!(w.items.first(), Some(Item::Trace(_))) {
                    c.o.label(10);
                }
                if p.body.is_some() {
                    return Err("a header section without an empty line has a body".into());
                }
                if w.items.len() != p.items.len() + q.items.len() {
                    return Err(clip(format!("cut at {}: {} items, but {} and {} in the halves: {:?}", i, w.items.len(), p.items.len(), q.items.len(), w.items)));
                }
                for (u, v) in w.items.iter().zip(p.items.iter().chain(&q.items)) {
                    if u != v {
                        return Err(clip(format!("cut at {}: {:?} in the whole message is {:?} in its half", i, u, v)));
                    }
                }
                if w.body != q.body {
                    return Err(clip(format!("cut at {}: the body {:?} became {:?}", i, w.body, q.body)));
                }
            }
            (None, None, _) | (None, _, None) => c.o.label(7),
            (Some(_), p, q) => return Err(clip(format!("accepted, but cut at {} the {} half is not: {:?}", i, if p.is_none() { "first" } else { "second" }, if p.is_none() { esc_bytes(x) } else { let _ = q; esc_bytes(y) }))),
            (None, Some(_), Some(_)) => return Err(format!("rejected, but both halves are accepted when cut at {}", i)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C32
pub static C32: PropDef = PropDef {
    id: "C32",
    run: c32,
    labels: &["mail as built", "headers edited", "mutated mail", "fragments", "hostile", "email accepted", "message rejected", "duplicate", "missing", "decoding error", "with trace blocks", "with body", "encoded body"],
    rule: "messages (as built, edited, mutated, fragments, hostile bytes) given to both entry points; what Email::parse returns is rebuilt from the fields that parse_message returns and compared in full; non-trivial: accepted by parse_message; distinct by message bytes",
};
fn c32(c: &mut Ctx) -> Result<(), String> {
    let mut b = messages(c);
    b.truncate(60_000);
    c.o.input = b.clone();
    let f = c.sut.feats();
    let mut au = Audit::default();
    let got = c.sut.email(&b, 0, &mut au);
    if let Err(Fail::Panic(m)) = &got {
        return Err(format!("panic: {}", m));
    }
    let Some(m) = outcome(get(c, &b))? else {
        c.o.label(6);
        return match got {
            Ok(_) => Err("Email::parse accepts what parse_message rejects".into()),
            Err(_) => Ok(()),
        };
    };
    c.o.nontrivial = true;
    if matches!(m.items.first(), Some(Item::Trace(_))) {
        c.o.label(10);
    }
    if m.body.is_some() {
        c.o.label(11);
    }
    let sut = c.sut;
    let mut enc = false;
    let want = model::collect(m.items, m.body, f, 0, &mut |body, cte| {
        let mut au = Audit::default();
        let r = match cte.map(|k| (k.known, &k.name.t[..])) {
            None => return Tr::Ok(body),
            Some((true, b"base64")) => sut.b64_decode(&body.t, &mut au),
            Some((true, b"quoted-printable")) => sut.qp_decode(&body.t, &mut au),
            Some((true, _)) => return Tr::Ok(body),
            Some((false, _)) => return Tr::Err,
        };
        enc = true;
        match r {
            Ok(v) => Tr::Ok(S::any(v)),
            Err(_) => Tr::Err,
        }
    });
    if enc {
        c.o.label(12);
    }
    match &want {
        ERes::Ok(_) => c.o.label(5),
        ERes::Err { dup, missing, other } => {
            if !dup.is_empty() {
                c.o.label(7);
            }
            if !missing.is_empty() {
                c.o.label(8);
            }
            if *other {
                c.o.label(9);
            }
        }
        _ => {}
    }
    compare_email(want, got, &EScope::all())?;
    Ok(())
}

// ---------------------------------------------------------------- C33
pub static C33: PropDef = PropDef {
    id: "C33",
    run: c33,
    labels: &["valid", "edited", "value of another kind", "accepted by both", "part rejected", "message rejected", "with body", "encoded body", "unknown fields", "part inside a part", "default type", "owned buffer", "any bytes", "any bytes accepted"],
    rule: "up to eight Content-* and unknown header lines (valid, edited, values of other kinds) and a body, written once as a message and once as a part of a multipart at depth 1-3 (and, through the hook, as a part on its own); also arbitrary bytes where the headers should be, compared for acceptance only; the entity of the message and that of the part are compared field by field, and so are their decoded forms; non-trivial: both accepted with at least one recognised header; distinct by message bytes",
};
fn c33(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    if !f.mime {
        return Ok(());
    }
    if c.s.pct(20) {
        return c33_any(c);
    }
    let k = knobs(c, 12, 12);
    let mut names = vec!["Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description"];
    if f.cd {
        names.push("Content-Disposition");
    }
    let mut mail = Mail::default();
    let n = c.s.size(3, 8);
    for _ in 0..n {
        if c.s.pct(25) {
            mail.unknown(c.s, k);
            let l = mail.lines.last().unwrap().lname();
            if f.enabled(&l) || l.starts_with("content-") || l.starts_with("resent-") || l == "received" || l == "return-path" {
                return Ok(());
            }
            c.o.label(8);
            continue;
        }
        let t = *c.s.pick(&names[..]);
        if mail.lines.iter().any(|l| l.lname().eq_ignore_ascii_case(t)) {
            continue;
        }
        mail.known(c.s, k, t);
        let i = mail.lines.len() - 1;
        match c.s.weighted(&[5, 5, 1]) {
            0 => c.o.label(0),
            1 => {
                c.o.label(1);
                let mut v = mail.value(&mail.lines[i]).to_vec();
                tweak(c.s, &mut v);
                set_value(&mut mail, i, &v);
            }
            _ => {
                c.o.label(2);
                let o = *c.s.pick(&names[..]);
                let mut g = Gen::new(c.s, k);
                g.put(b" ");
                g.value(&o.to_ascii_lowercase());
                let v = g.o;
                set_value(&mut mail, i, &v);
            }
        }
    }
    let mut head = mail.b.clone();
    if c.s.pct(4) {
        mutate(c.s, &mut head);
        if !head.ends_with(b"\r\n") || model::wsp(head[0]) || cuts(&head).1 != head.len() || cuts(&head).0.iter().any(|i| *i < head.len() && odd_name(&head[*i..], f)) {
            return Ok(());
        }
    }
    let body: Vec<u8> = match c.s.weighted(&[5, 2, 2, 1]) {
        0 => {
            let mut g = Gen::new(c.s, Knobs::plain());
            g.ascii_body();
            g.o
        }
        1 => {
            let n = c.s.size(8, 200);
            let mut v: Vec<u8> = (0..n).map(|_| c.s.below(256) as u8).collect();
            if c.s.pct(15) {
                crate::gen::affix(c.s, &mut v, false);
            }
            v
        }
        2 => {
            let n = c.s.size(20, 100);
            (0..n).map(|_| *c.s.pick(b"QUJDab+/= =\r\n=3D=E9")).collect()
        }
        _ => b"--in\r\nContent-Type: text/plain\r\n\r\nx\r\n--in--\r\n".to_vec(),
    };
    const B: &[u8] = b"qZ7-outer'boundary";
    if body.windows(B.len()).any(|w| w == B) || head.windows(B.len()).any(|w| w == B) {
        return Ok(());
    }
    let depth = 1 + c.s.weighted(&[6, 2, 1]);
    let has_body = !c.s.pct(10);
    // as a message
    let need: &[u8] = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n";
    let mut m1 = need.to_vec();
    m1.extend_from_slice(&head);
    let mut part = head.clone();
    if has_body {
        m1.extend_from_slice(b"\r\n");
        m1.extend_from_slice(&body);
        part.extend_from_slice(b"\r\n");
        part.extend_from_slice(&body);
        c.o.label(6);
    } else if head.is_empty() {
        return Ok(());
    }
    let mut m2 = part.clone();
    for d in 0..depth {
        let bd = [B, format!("{}", d).as_bytes()].concat();
        let mut x = b"Content-Type: multipart/mixed; boundary=\"".to_vec();
        x.extend_from_slice(&bd);
        x.extend_from_slice(b"\"\r\n\r\n--");
        x.extend_from_slice(&bd);
        x.extend_from_slice(b"\r\n");
        x.extend_from_slice(&m2);
        x.extend_from_slice(b"\r\n--");
        x.extend_from_slice(&bd);
        x.extend_from_slice(b"--\r\n");
        m2 = x;
    }
    if depth > 1 {
        c.o.label(9);
    }
    let m2 = [need, &m2[..]].concat();
    c.o.input = m2.clone();
    let mut au = Audit::default();
    let e1 = c.sut.email(&m1, 2, &mut au);
    let e2 = c.sut.email(&m2, depth + 2, &mut au);
    for e in [&e1, &e2] {
        if let Err(Fail::Panic(m)) = e {
            return Err(format!("panic: {}", m));
        }
    }
    let e2 = match e2 {
        Ok(e) => e,
        Err(e) => return Err(format!("the multipart is rejected: {}", show_fail(&e))),
    };
    let mut at = e2.ent.as_ref().ok_or("no entity")?.clone();
    for _ in 0..depth {
        let next = match at.node.as_deref() {
            Some(Node::Multi { parts, .. }) if parts.len() == 1 => parts[0].clone(),
            Some(Node::Multi { parts, .. }) => return Err(format!("{} parts instead of one", parts.len())),
            _ => {
                c.o.label(4);
                // what is no part has to be no message either
                return match e1 {
                    Ok(e) if has_body => Err(clip(format!("accepted as a message, but not as a part: {:?}", e.ent))),
                    _ => Ok(()),
                };
            }
        };
        at = next;
    }
    let (e1, unknown) = match e1 {
        Ok(e) => {
            let u = e.unknown.clone();
            (e.ent.ok_or("no entity")?, u)
        }
        // a header twice in a part is left open
        Err(Fail::Err(ErrV::Dup(_))) => return Ok(()),
        Err(e) => {
            c.o.label(5);
            return Err(clip(format!("accepted as a part ({:?}), but as a message: {}", at, show_fail(&e))));
        }
    };
    c.o.label(3);
    if head.is_empty() {
        c.o.label(10);
    }
    c.o.nontrivial = !mail.lines.is_empty();
    let mut one = e1;
    one.extra = unknown;
    ent_diff("as a part / as a message", &at, &one)?;
    // alone, from a borrowed and from an owned buffer
    let owned = c.s.pct(50);
    if owned {
        c.o.label(11);
    }
    match c.sut.raw_entity(&part, owned, 2, &mut au) {
        Ok(x) => ent_diff("as a part on its own / as a message", &x, &one)?,
        Err(Fail::Err(ErrV::Other(m))) if m == "unsupported" => {}
        Err(e) => return Err(clip(format!("accepted as a message, but not as a part on its own: {}", show_fail(&e)))),
    }
    Ok(())
}
/// bytes that need not be headers at all: a part if and only if they are a message
fn c33_any(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    c.o.label(12);
    let k = knobs(c, 5, 5);
    let mut b: Vec<u8> = Vec::new();
    let n = 1 + c.s.size(2, 6);
    for _ in 0..n {
        match c.s.weighted(&[6, 3, 3, 3, 2]) {
            0 => b.extend_from_slice(
                c.s.pick(&[
                    " ", "\t", "\r\n", "\n", "\r", " \r\n", "\t\r\n", ":", "X", "X:", "X :", ": y\r\n", " X: y\r\n", "X\r\n", "X: y", "X: y\r\n z\r\n", "\0", "--", "--\r\n", "-- \r\n", ">From a\r\n", "From a@b Mon\r\n", "\r\n\r\n", "\r\r\n", "\n\n", "\u{e9}", "text\r\n",
                    "Content-Type\r\n", "Content-Type:\r\n", "Content-Type: text/plain", "Content-ID: <a@b>\r\n", "(c)\r\n", "X:\r\n", "\x0c", "\x0b", "\u{feff}",
                ])
                .as_bytes(),
            ),
            1 => {
                let mut mail = Mail::default();
                mail.unknown(c.s, k);
                b.extend(mail.b);
            }
            2 => {
                let mut mail = Mail::default();
                let t = *c.s.pick(&["Content-Type", "Content-ID", "Content-Description", "Content-Disposition"]);
                mail.known(c.s, k, t);
                b.extend(mail.b);
            }
            3 => {
                let m = 1 + c.s.size(2, 5);
                b.extend(crate::props::robust::snippets(c.s, m));
            }
            _ => {
                let m = c.s.size(4, 30);
                for _ in 0..m {
                    b.push(c.s.below(256) as u8);
                }
            }
        }
    }
    if c.s.pct(30) && !b.is_empty() {
        mutate(c.s, &mut b);
    }
    if c.s.pct(60) {
        b.extend_from_slice(b"\r\n");
        if c.s.pct(50) {
            b.extend_from_slice(b"body\r\n");
        }
    }
    const B: &[u8] = b"qZ7-outer'boundary";
    if b.is_empty() || b.windows(B.len()).any(|w| w == B) {
        return Ok(());
    }
    // the transfer encoding of a message is looked at later than that of a part
    let cte = |l: &[u8]| l.len() >= 12 && l[..12].eq_ignore_ascii_case(b"content-tran");
    if (0..b.len()).any(|i| (i == 0 || b[i - 1] == b'\n') && (odd_name(&b[i..], f) || cte(&b[i..]))) {
        return Ok(());
    }
    let need: &[u8] = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n";
    let m2 = [need, b"Content-Type: multipart/mixed; boundary=\"", B, b"\"\r\n\r\n--", B, b"\r\n", &b, b"\r\n--", B, b"--\r\n"].concat();
    c.o.input = m2.clone();
    let mut au = Audit::default();
    let r1 = outcome(c.sut.message(&b, &mut au))?.is_some();
    let e2 = match c.sut.email(&m2, 2, &mut au) {
        Ok(e) => e,
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(e) => return Err(format!("the multipart is rejected: {}", show_fail(&e))),
    };
    let r2 = match e2.ent.as_ref().and_then(|e| e.node.as_deref()) {
        Some(Node::Multi { parts, .. }) if parts.len() == 1 => true,
        Some(Node::Multi { parts, .. }) => return Err(format!("{} parts instead of one", parts.len())),
        _ => false,
    };
    c.o.nontrivial = r1 || r2;
    if r1 && r2 {
        c.o.label(13);
    }
    if r1 != r2 {
        return Err(format!("accepted as a message: {}; as a part: {}", r1, r2));
    }
    match c.sut.raw_entity(&b, c.s.pct(50), 0, &mut au) {
        Ok(_) if r1 => Ok(()),
        Err(Fail::Err(ErrV::Other(m))) if m == "unsupported" => Ok(()),
        Err(Fail::Panic(m)) => Err(format!("panic: {}", m)),
        Err(_) if !r1 => Ok(()),
        r => Err(clip(format!("accepted as a message: {}; as a part on its own: {:?}", r1, r.is_ok()))),
    }
}
/// a name that a message and a part treat differently
fn odd_name(l: &[u8], f: Feats) -> bool {
    let n: Vec<u8> = l.iter().take_while(|c| **c != b':').map(|c| c.to_ascii_lowercase()).collect();
    let n = String::from_utf8_lossy(&n).into_owned();
    (f.enabled(&n) && !n.starts_with("content-")) || traceish(l) || n == "mime-version"
}

// ---------------------------------------------------------------- C34
pub static C34: PropDef = PropDef {
    id: "C34",
    run: c34,
    labels: &["addresses", "free text", "identifiers", "date", "parameters", "phrase", "value as built", "value edited", "value of another kind", "fragments", "read by the first header", "read by none", "group around it", "in a trace block", "encoded word"],
    rule: "one value (as built for a grammar, edited, built for another grammar, fragments of syntax) written under every header whose grammar it shares, also the Resent- ones, and inside the larger constructs that contain that grammar; the results are compared with each other; non-trivial: at least one header reads the value; distinct by the value",
};
/// the only item of a message with this one header
fn one(c: &mut Ctx, head: &[u8], v: &[u8], tail: &[u8]) -> Result<Option<Item>, String> {
    let b = [head, v, tail, b"\r\n"].concat();
    let m = outcome(get(c, &b))?;
    Ok(m.and_then(|mut m| if m.items.len() == 1 && m.body.is_none() { m.items.pop() } else { None }))
}
/// the only field of a trace block
fn resent(c: &mut Ctx, head: &[u8], v: &[u8]) -> Result<Option<Item>, String> {
    let b = [b"Received: x; 1 Jan 2000 00:00:00 +0000\r\n", head, v, b"\r\n"].concat();
    let m = outcome(get(c, &b))?;
    Ok(m.and_then(|mut m| match m.items.pop() {
        Some(Item::Trace(mut t)) if m.items.is_empty() && t.fields.len() == 1 => t.fields.pop(),
        _ => None,
    }))
}
fn same<T: PartialEq + std::fmt::Debug>(wa: &str, a: &Option<T>, wb: &str, b: &Option<T>) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(clip(format!("{}: {:?}, but {}: {:?}", wa, a, wb, b)))
    }
}
/// the last line holds white space only
fn blank_end(v: &[u8]) -> bool {
    let e = v.iter().rposition(|x| !model::wsp(*x)).map(|i| i + 1).unwrap_or(0);
    v[..e].ends_with(b"\n")
}
fn c34(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let kind = c.s.weighted(&[10, 3, 4, 4, 5, 6]);
    c.o.label(kind as u32);
    const KIND: [&str; 6] = ["to", "subject", "in-reply-to", "date", "content-type", "keywords"];
    let k = knobs(c, 14, 12);
    let mut v = {
        let mut g = Gen::new(c.s, k);
        if g.s.pct(70) {
            g.put(b" ");
        }
        let t = g.s.below(100);
        match kind {
            0 if t < 35 => {
                g.mailbox();
            }
            0 if t < 50 => {
                g.angle_addr();
            }
            0 if t < 65 => {
                g.mailboxes();
            }
            0 if t < 70 => {
                g.return_path();
            }
            2 if t < 60 => {
                g.msg_id();
            }
            4 => {
                g.params(&[], 25);
            }
            5 if t < 70 => {
                g.phrase();
            }
            _ => {
                g.value(KIND[kind as usize]);
            }
        }
        g.o
    };
    match c.s.weighted(&[50, 40, 5, 5]) {
        0 => c.o.label(6),
        1 => {
            c.o.label(7);
            tweak(c.s, &mut v);
        }
        2 => {
            c.o.label(8);
            let t = *c.s.pick(&KNOWN[..]);
            let mut g = Gen::new(c.s, k);
            g.value(&t.to_ascii_lowercase());
            v = g.o;
        }
        _ => {
            c.o.label(9);
            let n = 1 + c.s.size(5, 20);
            v = snippets(c.s, n);
        }
    }
    // the value of one header
    if let Some(i) = (0..v.len()).find(|i| v[*i..].starts_with(b"\r\n") && !v.get(i + 2).map_or(false, |x| model::wsp(*x))) {
        v.truncate(i);
    }
    c.o.input = v.clone();
    let blank = blank_end(&v);
    if v.windows(2).any(|w| w == b"=?") {
        c.o.label(14);
    }
    let mut read = 0;
    match kind {
        0 => {
            let lists: Vec<Option<Vec<Address>>> = {
                let mut o = Vec::new();
                for (on, n) in [(f.to, "To:"), (f.cc, "Cc:"), (f.reply_to, "Reply-To:"), (f.trace && f.to, "Resent-To:"), (f.trace && f.cc, "Resent-Cc:"), (f.bcc, "Bcc:"), (f.trace && f.bcc, "Resent-Bcc:")] {
                    if !on {
                        continue;
                    }
                    let i = if n.starts_with("Resent") { resent(c, n.as_bytes(), &v)? } else { one(c, n.as_bytes(), &v, b"")? };
                    let l = match i {
                        Some(Item::To(l)) | Some(Item::Cc(l)) | Some(Item::ReplyTo(l)) => Some(l),
                        Some(Item::Bcc(l)) => if l.is_empty() { None } else { Some(l) },
                        _ => None,
                    };
                    if let Some(first) = o.first() {
                        same("To", first, n, &l)?;
                    }
                    o.push(l);
                }
                o
            };
            let to = lists.into_iter().next().flatten();
            read += to.is_some() as u32;
            let mut ones = Vec::new();
            for (on, n) in [(f.from, "From:"), (f.trace && f.from, "Resent-From:")] {
                if on {
                    let i = if n.starts_with("Resent") { resent(c, n.as_bytes(), &v)? } else { one(c, n.as_bytes(), &v, b"")? };
                    let l = if let Some(Item::From(l)) = i { Some(l) } else { None };
                    if f.to {
                        let all: Option<Vec<Mbox>> = to.as_ref().and_then(|t| t.iter().map(|a| if let Address::M(m) = a { Some(m.clone()) } else { None }).collect());
                        same("To", &all, n, &l)?;
                    }
                    ones.push(l);
                }
            }
            let from = ones.into_iter().next().flatten();
            let mut snd = None;
            for (on, n) in [(f.sender, "Sender:"), (f.trace && f.sender, "Resent-Sender:")] {
                if on {
                    let i = if n.starts_with("Resent") { resent(c, n.as_bytes(), &v)? } else { one(c, n.as_bytes(), &v, b"")? };
                    let m = if let Some(Item::Sender(m)) = i { Some(m) } else { None };
                    if f.from {
                        let single = from.as_ref().and_then(|l| if l.len() == 1 { Some(l[0].clone()) } else { None });
                        same("From", &single, n, &m)?;
                    }
                    snd = m;
                }
            }
            if f.to && f.from && !blank {
                if let Some(l) = &from {
                    c.o.label(12);
                    let i = one(c, b"To: grp:", &v, b";")?;
                    let want = Some(Item::To(vec![Address::G(vec![S::any("grp")], l.clone())]));
                    same("the members", &want, "in a group", &i)?;
                    let i = one(c, b"To: x@y.z,", &v, b",p@q.r")?;
                    let side = |l: &str, d: &str| Address::M(Mbox { name: None, addr: Addr { local: S::any(l), domain: S::any(d) } });
                    let mut all = vec![side("x", "y.z")];
                    all.extend(l.iter().map(|m| Address::M(m.clone())));
                    all.push(side("p", "q.r"));
                    same("alone", &Some(Item::To(all)), "within a longer list", &i)?;
                }
            }
            if f.trace && f.sender {
                c.o.label(13);
                let b = [b"Return-Path:", &v[..], b"\r\nReceived: x; 1 Jan 2000 00:00:00 +0000\r\n"].concat();
                let i = outcome(get(c, &b))?.and_then(|mut m| if m.items.len() == 1 { m.items.pop() } else { None });
                let rp = match i {
                    Some(Item::Trace(t)) => t.rp.flatten(),
                    _ => None,
                };
                read += rp.is_some() as u32;
                if let Some(a) = &rp {
                    same("Return-Path", &Some(Mbox { name: None, addr: a.clone() }), "Sender", &snd)?;
                    if !blank {
                        let i = one(c, b"Received:", &v, b"; 1 Jan 2000 00:00:00 +0000")?;
                        let toks = if let Some(Item::Trace(mut t)) = i { t.recv.pop().map(|r| r.0) } else { None };
                        same("Return-Path", &Some(vec![Tok::Addr(a.clone())]), "Received", &toks)?;
                    }
                } else if let Some(m) = &snd {
                    let t: Vec<u8> = v.iter().copied().skip_while(|x| model::wsp(*x)).collect();
                    if t.first() == Some(&b'<') {
                        return Err(clip(format!("Sender: {:?}, but Return-Path does not read it", m)));
                    }
                }
            }
        }
        1 => {
            let mut first: Option<(&str, Option<S>)> = None;
            let plain = !v.windows(2).any(|w| w == b"=?");
            for (on, n) in [(f.subject, "Subject:"), (f.comments, "Comments:"), (f.mime, "Content-Description:"), (f.unrec || !f.mime || plain, "X-Other:")] {
                if !on {
                    continue;
                }
                let t = match one(c, n.as_bytes(), &v, b"")? {
                    Some(Item::Subject(t)) | Some(Item::Comments(t)) | Some(Item::ContentDescription(t)) => Some(t),
                    Some(Item::Unknown { value, name }) if n == "X-Other:" && name.t == b"X-Other" => Some(value),
                    _ => None,
                };
                read += t.is_some() as u32;
                match &first {
                    None => first = Some((n, t)),
                    Some((m, u)) => same(m, u, n, &t)?,
                }
            }
        }
        2 => {
            let mut first: Option<(&str, Option<Vec<Id>>)> = None;
            for (on, n) in [(f.in_reply_to, "In-Reply-To:"), (f.references, "References:"), (f.message_id, "Message-ID:"), (f.mime, "Content-ID:"), (f.trace && f.message_id, "Resent-Message-ID:")] {
                if !on {
                    continue;
                }
                let i = if n.starts_with("Resent") { resent(c, n.as_bytes(), &v)? } else { one(c, n.as_bytes(), &v, b"")? };
                let (l, single) = match i {
                    Some(Item::InReplyTo(l)) | Some(Item::References(l)) => (Some(l), false),
                    Some(Item::MessageId(x)) | Some(Item::ContentId(x)) => (Some(vec![x]), true),
                    _ => (None, n.ends_with("ID:")),
                };
                read += l.is_some() as u32;
                match &first {
                    None => first = Some((n, l)),
                    Some((m, u)) => {
                        let cut = if single { u.clone().filter(|x| x.len() == 1) } else { u.clone() };
                        if single && !f.in_reply_to && !f.references {
                            same(m, u, n, &l)?;
                        } else {
                            same(m, &cut, n, &l)?;
                        }
                    }
                }
            }
        }
        3 => {
            let mut first: Option<(&str, Option<DT>)> = None;
            let quoted = !v.iter().any(|x| matches!(x, b'(' | b')' | b'\\' | b'"')) && !blank && v.windows(3).all(|w| !w.starts_with(b"\r\n") || model::wsp(w[2]));
            for (on, n, z) in [(f.date, "Date:", ""), (f.trace && f.date, "Resent-Date:", ""), (f.trace && !blank, "Received: x;", ""), (f.cd && quoted, "Content-Disposition: a; creation-date=\"", "\""), (f.cd && quoted, "Content-Disposition: a; modification-date=\"", "\""), (f.cd && quoted, "Content-Disposition: a; read-date=\"", "\"")] {
                if !on {
                    continue;
                }
                let i = if n.starts_with("Resent") { resent(c, n.as_bytes(), &v)? } else { one(c, n.as_bytes(), &v, z.as_bytes())? };
                let d = match i {
                    Some(Item::Date(d)) => Some(d),
                    Some(Item::ContentDisposition(d)) => d.creation.or(d.modification).or(d.read),
                    Some(Item::Trace(mut t)) => t.recv.pop().map(|r| r.1),
                    _ => None,
                };
                read += d.is_some() as u32;
                match &first {
                    None => first = Some((n, d)),
                    Some((m, u)) => same(m, u, n, &d)?,
                }
            }
        }
        4 => {
            let low = v.to_ascii_lowercase();
            let count = |t: &[u8]| low.windows(t.len()).filter(|w| *w == t).count();
            if f.cd && count(b"-date") == 0 && count(b"filename") <= 1 {
                let a = match one(c, b"Content-Type: a/b", &v, b"")? {
                    Some(Item::ContentType { ty, sub, params }) if ty.name.t == b"a" && sub.t == b"b" => Some(params),
                    _ => None,
                };
                let b = match one(c, b"Content-Disposition: a", &v, b"")? {
                    Some(Item::ContentDisposition(d)) if d.kind.name.t == b"a" => {
                        let mut p = d.params;
                        if let Some(x) = d.filename {
                            p.insert(S::any("filename"), x);
                        }
                        Some(p)
                    }
                    _ => None,
                };
                read += a.is_some() as u32;
                same("Content-Type", &a, "Content-Disposition", &b)?;
            }
        }
        _ => {
            // an "@" has no place in an encoded word of a phrase, and makes it an address
            let odd = v.contains(&b'@') && v.windows(2).any(|w| w == b"=?");
            if f.keywords && f.sender && f.to && !blank && !odd {
                let a = match one(c, b"Keywords:", &v, b"")? {
                    Some(Item::Keywords(mut l)) if l.len() == 1 => l.pop(),
                    _ => None,
                };
                let b = match one(c, b"Sender:", &v, b"<a@b.c>")? {
                    Some(Item::Sender(m)) => m.name,
                    _ => None,
                };
                let g = match one(c, b"To:", &v, b":;")? {
                    Some(Item::To(mut l)) if l.len() == 1 => match l.pop() {
                        Some(Address::G(n, _)) => Some(n),
                        _ => None,
                    },
                    _ => None,
                };
                read += a.is_some() as u32;
                same("Keywords", &a, "display name", &b)?;
                same("Keywords", &a, "group name", &g)?;
            }
        }
    }
    c.o.label(if read > 0 { 10 } else { 11 });
    c.o.nontrivial = read > 0;
    Ok(())
}
