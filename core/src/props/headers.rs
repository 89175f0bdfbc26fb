//! Checks that compare parsed headers with the constructed value and the reference model.
use super::*;

// ---------------------------------------------------------------- C03
pub static C03: PropDef = PropDef {
    id: "C03",
    run: c03,
    labels: &[
        "valid as built", "printable edits", "arbitrary edits", "bad line inserted", "accepted", "rejected", "unspecified", "", "degraded header",
        "with trace block", "no final CRLF", "many headers", "no headers", "", "has body",
    ],
    rule: "messages of 0-60 header lines (known, unknown, near-miss names, trace blocks), valid, with printable edits of values, with one line that is not a field inserted, or with arbitrary byte edits; non-trivial: at least two header lines, or a message that must be rejected; distinct by message bytes",
};
fn tag_of(i: &Item) -> (String, Vec<u8>, usize, usize) {
    match i {
        Item::Unknown { name, .. } => ("unknown".into(), name.t.clone(), 0, 0),
        Item::Trace(t) => ("trace".into(), vec![t.rp.is_some() as u8], t.recv.len(), t.fields.len()),
        i => (i.kind().into(), vec![], 0, 0),
    }
}
fn c03(c: &mut Ctx) -> Result<(), String> {
    let mode = c.s.weighted(&[40, 25, 15, 20]);
    c.o.label(mode as u32);
    let k = knobs(c, 8, 6);
    let mut mail = Mail::default();
    while c.s.pct(25) {
        mail.trace_block(c.s, k);
        c.o.label(L_TRACE);
    }
    let n = if c.s.pct(5) { c.s.size(30, 60) } else { c.s.count(4, 30, 300) };
    if n > 15 {
        c.o.label(11);
    }
    if n == 0 {
        c.o.label(12);
    }
    for _ in 0..n {
        if c.s.pct(35) {
            mail.unknown(c.s, k);
        } else if c.s.pct(8) {
            mail.trace_block(c.s, k);
        } else {
            let t = *c.s.pick(&KNOWN[..]);
            mail.known(c.s, k, t);
        }
    }
    if mode == 1 && !mail.lines.is_empty() {
        for _ in 0..1 + c.s.size(1, 4) {
            let i = c.s.below(mail.lines.len() as u32) as usize;
            let mut v = mail.value(&mail.lines[i]).to_vec();
            tweak(c.s, &mut v);
            set_value(&mut mail, i, &v);
        }
    }
    let mut b = mail.b.clone();
    if mode == 3 {
        // a line that is not a header field, or nearly
        let at = match mail.lines.len() {
            0 => 0,
            n => {
                let i = c.s.below(n as u32 + 1) as usize;
                if i == n { b.len() } else { mail.lines[i].val.0 - mail.lines[i].name.len() - 1 }
            }
        };
        let mut bad: Vec<u8> = match c.s.weighted(&[2, 2, 2, 2, 2, 2, 2, 1]) {
            0 => b"no colon here\r\n".to_vec(),
            1 => b": no name\r\n".to_vec(),
            2 => b"X y: space in the name\r\n".to_vec(),
            3 => {
                let mut v = b"X: ".to_vec();
                let h = c.s.range(0, 255) as u8;
                v.push(h);
                v.extend_from_slice(b"z\r\n");
                v
            }
            4 => b"X: bare\rcr\r\n".to_vec(),
            5 => b"X: bare\nlf\r\n".to_vec(),
            6 => {
                let mut v = vec![c.s.range(1, 255) as u8];
                v.extend_from_slice(b"X: odd name\r\n");
                v
            }
            _ => b"X: ends with lf only\n".to_vec(),
        };
        if c.s.pct(30) {
            let i = c.s.below(bad.len() as u32) as usize;
            bad[i] = c.s.below(256) as u8;
        }
        let tail = b.split_off(at);
        b.extend(bad);
        b.extend(tail);
    }
    match c.s.weighted(&[3, 4, 1, 1]) {
        0 => {}
        1 => {
            b.extend_from_slice(b"\r\n");
            let mut g = Gen::new(c.s, Knobs::plain());
            if g.s.pct(30) {
                g.put(b"Subject: not a header\r\n\r\nX: y\r\n");
            }
            g.ascii_body();
            let o = g.o;
            b.extend(o);
            c.o.label(L_BODY);
        }
        2 => {
            b.truncate(b.len().saturating_sub(2));
            c.o.label(10);
        }
        _ => {
            // the last line ends in the middle of the data
            let n = c.s.below(b.len() as u32 + 1) as usize;
            b.truncate(n);
        }
    }
    if mode == 2 {
        mutate(c.s, &mut b);
    }
    c.o.input = b.clone();
    let f = c.sut.feats();
    let mut au = Audit::default();
    let want = model::message(&b, f);
    let got = c.sut.message(&b, &mut au);
    match (want, got) {
        (MRes::Gray, _) => {
            c.o.gray = true;
            c.o.label(L_GRAY);
        }
        (MRes::Reject, Ok(g)) => return Err(clip(format!("accepted, but a line is not a header field (or the body is not valid): {:?}", g))),
        (MRes::Reject, Err(_)) => {
            c.o.label(L_REJ);
            c.o.nontrivial = true;
        }
        (MRes::Ok(m), Err(e)) => {
            if m.gray() {
                c.o.gray = true;
            } else {
                return Err(clip(format!("rejected a valid message with {}: expected {:?}", show_fail(&e), m.items)));
            }
        }
        (MRes::Ok(m), Ok(g)) => {
            c.o.label(L_ACC);
            c.o.nontrivial = m.lines.len() >= 2;
            if m.items.len() != g.items.len() {
                return Err(clip(format!("{} items for {} expected: got {:?} expected {:?}", g.items.len(), m.items.len(), g.items, m.items)));
            }
            for (w, i) in m.items.iter().zip(&g.items) {
                let l = &m.lines[w.lines.0];
                let known = f.enabled(&l.lname(&b));
                if known && matches!(w.item, Item::Unknown { .. }) {
                    c.o.label(L_DEG);
                }
                if w.gray {
                    // at least it is this line
                    if let Item::Unknown { name, .. } = i {
                        if name.t != l.name(&b) {
                            return Err(clip(format!("got {:?} for the line {:?}", i, esc(l.name(&b)))));
                        }
                    } else if i.kind().as_bytes() != l.lname(&b).as_bytes() {
                        return Err(clip(format!("got {:?} for the line {:?}", i, esc(l.name(&b)))));
                    }
                    continue;
                }
                if tag_of(&w.item) != tag_of(i) {
                    return Err(clip(format!("got {:?} in place of {:?}", i, w.item)));
                }
            }
            if m.body.is_some() != g.body.is_some() || m.body.map(|i| b.len() - i) != g.body.as_ref().map(|x| x.t.len()) {
                return Err(clip(format!("the header section does not end at the first empty line: body {:?}", g.body)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
pub static C04: PropDef = PropDef {
    id: "C04",
    run: c04,
    labels: &[
        "no empty line", "empty body", "text body", "byte body", "accepted", "rejected", "unspecified", "long line", "8-bit", "bare CR or LF", "NUL", "identity encoding", "body looks like headers",
    ],
    rule: "small header sections followed by absent, empty, text, long-line and arbitrary byte bodies, with and without identity transfer encodings; non-trivial: the body has at least one byte; distinct by message bytes",
};
fn c04(c: &mut Ctx) -> Result<(), String> {
    let mut mail = Mail::default();
    noise(&mut mail, c, Knobs::plain(), 1, &["Content-Transfer-Encoding", "Content-Type", "From", "Date", "Sender"]);
    let f = c.sut.feats();
    if c.s.pct(35) {
        let t = *c.s.pick(&[" 7bit", " 8bit", " binary", " 7BIT", " Binary"]);
        mail.push(b"Content-Transfer-Encoding", t.as_bytes(), None);
        c.o.label(11);
    }
    mail.need(c.s);
    match c.s.weighted(&[1, 1, 5, 4]) {
        0 => c.o.label(0),
        1 => {
            mail.end_headers();
            c.o.label(1);
        }
        2 => {
            mail.end_headers();
            let mut g = Gen::new(c.s, Knobs::plain());
            if g.s.pct(10) {
                let n = if g.s.pct(50) { g.s.size(60, 600) } else { 300 };
                for i in 0..n {
                    g.put(b"line ");
                    g.put(i.to_string().as_bytes());
                    g.put(b"\r\n");
                }
            }
            g.ascii_body();
            if g.s.pct(35) {
                // one edit that may spoil it
                let n = g.o.len() as u32;
                if n > 0 {
                    let i = g.s.below(n) as usize;
                    match g.s.weighted(&[2, 2, 2, 2, 2]) {
                        0 => g.o[i] = 0,
                        1 => g.o[i] = g.s.range(128, 255) as u8,
                        2 => g.o.insert(i, *g.s.pick(b"\r\n")),
                        3 => {
                            let n = g.s.number(990, 1005);
                            let at = i;
                            let tail = g.o.split_off(at);
                            for _ in 0..n {
                                g.o.push(b'x');
                            }
                            g.o.extend(tail);
                        }
                        _ => {
                            g.o.remove(i);
                        }
                    }
                }
            }
            let o = g.o;
            mail.b.extend(o);
            c.o.label(2);
        }
        _ => {
            mail.end_headers();
            let mut g = Gen::new(c.s, Knobs::plain());
            if g.s.pct(25) {
                g.put(b"X: y\r\n\r\n");
            }
            g.bytes_body(20, 400);
            let o = g.o;
            mail.b.extend(o);
            c.o.label(3);
        }
    }
    let b = mail.b.clone();
    if let Some(at) = mail.body {
        let body = &b[at..];
        c.o.nontrivial = !body.is_empty();
        if body.iter().any(|x| *x > 127) {
            c.o.label(8);
        }
        if body.contains(&0) {
            c.o.label(10);
        }
        if body.split(|x| *x == b'\n').any(|l| l.len() > 990) {
            c.o.label(7);
        }
        let s: Vec<u8> = String::from_utf8_lossy(body).replace("\r\n", "").into_bytes();
        if s.contains(&b'\r') || s.contains(&b'\n') {
            c.o.label(9);
        }
    }
    let k = check_message(c, &b, &|_| false)?;
    if let (Some(g), Some(w)) = (&k.got, &k.want) {
        let want = w.body.map(|i| &b[i..]);
        if g.body.as_ref().map(|s| &s.t[..]) != want {
            return Err(clip(format!("body: got {:?}, expected {:?}", g.body, want.map(esc))));
        }
        if w.body != mail.body {
            return Err("HARNESS: the body is not where it was put".into());
        }
    }
    check_email(c, &b, 0, &EScope { body: true, ..EScope::slots(&|_| false) })?;
    if f.mime {
        // the value of the entity, on its own
        let mut au = Audit::default();
        if let (ERes::Ok(w), Ok(g)) = (model::email(&b, f, 0), c.sut.email(&b, 0, &mut au)) {
            if w.ent.as_ref().map(|e| &e.value) != g.ent.as_ref().map(|e| &e.value) {
                return Err(clip(format!("entity value: got {:?}, expected {:?}", g.ent.map(|e| e.value), w.ent.map(|e| e.value))));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
pub static C05: PropDef = PropDef {
    id: "C05",
    run: c05,
    labels: &[
        "complete", "something missing", "something repeated", "missing and repeated", "accepted", "rejected", "unspecified", "several authors", "sender given", "repeatable headers repeated",
        "bad transfer encoding", "malformed copy of a unique header",
    ],
    rule: "random multisets of 0-24 header lines over every unique and repeatable header, with required ones left out or unique ones repeated (also malformed copies, which do not count); non-trivial: at least three headers; distinct by message bytes",
};
fn c05(c: &mut Ctx) -> Result<(), String> {
    let mut names: Vec<&str> = Vec::new();
    if !c.s.pct(15) {
        names.push("From");
    }
    if !c.s.pct(15) {
        names.push("Date");
    }
    if c.s.pct(50) {
        names.push("Sender");
        c.o.label(8);
    }
    for k in KNOWN {
        if !names.contains(&k) && !matches!(k, "From" | "Date" | "Sender") && c.s.pct(30) {
            names.push(k);
        }
    }
    for _ in 0..c.s.count(1, 8, 300) {
        names.push(*c.s.pick(&["Comments", "Keywords", "X-Unknown"]));
        c.o.label(9);
    }
    if c.s.pct(45) {
        for _ in 0..1 + c.s.count(1, 3, 60) {
            names.push(*c.s.pick(&KNOWN[..]));
        }
    }
    for i in (1..names.len()).rev() {
        let j = c.s.below(i as u32 + 1) as usize;
        names.swap(i, j);
    }
    let k = knobs(c, 3, 3);
    let mut mail = Mail::default();
    for _ in 0..c.s.count(1, 3, 300) {
        mail.trace_block(c.s, k);
    }
    for n in names.iter() {
        if *n == "X-Unknown" {
            mail.unknown(c.s, k);
            continue;
        }
        if *n == "From" {
            // one or several authors
            let mut g = Gen::new(c.s, k);
            let v = match g.s.weighted(&[3, 3, 2]) {
                0 => vec![g.mailbox()],
                1 => g.mailboxes(),
                _ => {
                    let a = g.mailbox();
                    g.put(b",");
                    let b = g.mailbox();
                    vec![a, b]
                }
            };
            let (unsure, o) = (g.unsure, g.o);
            if v.len() > 1 {
                c.o.label(7);
            }
            mail.push(b"From", &o, if unsure { None } else { Some(Item::From(v)) });
            continue;
        }
        mail.known(c.s, k, n);
        if c.s.pct(4) {
            let i = mail.lines.len() - 1;
            let mut v = mail.value(&mail.lines[i]).to_vec();
            tweak(c.s, &mut v);
            set_value(&mut mail, i, &v);
            c.o.label(11);
        }
    }
    small_body(&mut mail, c);
    let b = mail.b.clone();
    c.o.input = b.clone();
    c.o.nontrivial = mail.lines.len() >= 3;
    let f = c.sut.feats();
    if let MRes::Ok(m) = model::message(&b, f) {
        cross_check(&m, &mail)?;
    }
    let sc = EScope { ent: false, ..EScope::all() };
    match model::email(&b, f, 0) {
        ERes::Gray => {
            c.o.gray = true;
            c.o.label(L_GRAY);
        }
        ERes::Ok(_) => {
            c.o.label(L_ACC);
            c.o.label(0);
        }
        ERes::Reject => c.o.label(L_REJ),
        ERes::Err { dup, missing, other } => {
            c.o.label(L_REJ);
            c.o.label(match (dup.is_empty(), missing.is_empty()) {
                (true, true) => 10,
                (true, false) => 1,
                (false, true) => 2,
                _ => 3,
            });
            // the error names the header
            if !other {
                if let Ok(Some((text, _))) = c.sut.error_strings(&b) {
                    let l = text.to_ascii_lowercase();
                    if !dup.iter().chain(&missing).any(|n| l.contains(&n[..])) {
                        return Err(format!("the error {:?} names none of {:?} {:?}", text, dup, missing));
                    }
                }
            }
        }
    }
    let e = check_email(c, &b, 0, &sc)?;
    if let Some(e) = e {
        // both ways in are the same
        let mut au = Audit::default();
        match c.sut.email_try_from(&b, &mut au) {
            Ok(x) if EmailV { ent: None, ..x.clone() } == EmailV { ent: None, ..e.clone() } => {}
            other => return Err(clip(format!("try_from differs from parse: {:?}", other))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
pub static C07: PropDef = PropDef {
    id: "C07",
    run: c07,
    labels: STD,
    rule: "address headers built from random mailboxes and groups (words, quoted strings, encoded words, literals, CFWS), or edited, or filled with another header's value; non-trivial: an address header is present and its reading is specified; distinct by message bytes",
};
const ADDR: &[&str] = &["from", "sender", "reply-to", "to", "cc", "bcc"];
fn c07(c: &mut Ctx) -> Result<(), String> {
    let cf = *c.s.pick(&[0u32, 10, 30]);
    let mut r = Recipe::new(&["From", "Sender", "Reply-To", "To", "Cc", "Bcc"], knobs(c, cf, 10));
    r.repeat = c.s.pct(5);
    scheme(c, &r, ADDR, &EScope::slots(&|n| ADDR.contains(&n)))?;
    Ok(())
}

// ---------------------------------------------------------------- C09
pub static C09: PropDef = PropDef {
    id: "C09",
    run: c09,
    labels: STD,
    rule: "quoted strings with escapes, folds and every printable character in addresses, phrases, keywords, trace and MIME parameters; plus defects inside them (unterminated, unescaped, control and 8-bit characters); plus bare versus quoted spellings of one value; non-trivial: the message holds a quoted string; distinct by message bytes",
};
fn c09(c: &mut Ctx) -> Result<(), String> {
    let mime = c.sut.feats().mime;
    if c.s.pct(20) {
        return c09_bare(c);
    }
    let cf = *c.s.pick(&[0u32, 15, 40]);
    let mut mail = Mail::default();
    let mode = c.s.weighted(&[5, 3, 2]);
    c.o.label(mode as u32);
    let mut g = Gen::new(c.s, Knobs { cf, ew: 0, mime });
    // one quoted string in a chosen position
    let text = g.quoted_bytes();
    let mut quoted = {
        let keep = std::mem::take(&mut g.o);
        g.quote(&text);
        std::mem::replace(&mut g.o, keep)
    };
    let mut exp = Some(S::any(text.clone()));
    if mode != 0 {
        exp = None;
        // spoil it (or not)
        for _ in 0..1 + g.s.size(1, 3) {
            let i = g.s.below(quoted.len() as u32) as usize;
            match g.s.weighted(&[3, 2, 2, 2, 2, 1]) {
                0 => {
                    let p = *g.s.pick(b"\"\\");
                    quoted.insert(i, p);
                }
                1 => {
                    quoted.remove(i);
                    if quoted.is_empty() {
                        quoted.push(b'"');
                    }
                }
                2 => {
                    quoted.pop();
                    if quoted.is_empty() {
                        quoted.push(b'"');
                    }
                }
                3 if mode == 2 => {
                    let x = g.s.below(256) as u8;
                    quoted.insert(i, x);
                }
                4 => {
                    let t = *g.s.pick(&["\r\n", "\r\n ", " \r\n\t", "\\ ", "\\\t", "\\\"", "\"\"", "\r", "\n"]);
                    let tail = quoted.split_off(i);
                    quoted.extend_from_slice(t.as_bytes());
                    quoted.extend(tail);
                }
                _ => {
                    let x = g.s.range(32, 126) as u8;
                    quoted[i] = x;
                }
            }
        }
    }
    let pos = g.s.weighted(&[3, 3, 3, 2, if mime { 4 } else { 1 }, if mime { 2 } else { 1 }, 1]);
    let (name, item): (&str, Option<Item>) = match pos {
        0 => {
            g.put(b" ");
            g.put(&quoted);
            g.cf();
            g.put(b"@");
            g.cf();
            let d = g.domain();
            g.cf();
            let hdr = *g.s.pick(&["To", "Cc", "Bcc", "Reply-To"]);
            let it = exp.map(|s| {
                let v = vec![Address::M(Mbox { name: None, addr: Addr { local: s, domain: d } })];
                match hdr {
                    "To" => Item::To(v),
                    "Cc" => Item::Cc(v),
                    "Bcc" => Item::Bcc(v),
                    _ => Item::ReplyTo(v),
                }
            });
            (hdr, it)
        }
        1 => {
            g.cf();
            g.put(&quoted);
            g.cf();
            let mut words = vec![];
            if g.s.pct(40) {
                g.put(b" ");
                let a = g.atom_bytes();
                g.put(&a);
                words.push(S::any(a));
            }
            g.cf();
            g.put(b"<");
            let a = g.addr_spec();
            g.put(b">");
            let it = exp.map(|s| {
                let mut n = vec![s];
                n.extend(words);
                Item::Sender(Mbox { name: Some(n), addr: a })
            });
            ("Sender", it)
        }
        2 => {
            g.cf();
            g.put(&quoted);
            g.cf();
            let mut v = vec![];
            if g.s.pct(50) {
                g.put(b",");
                v = g.keywords();
            }
            let it = exp.map(|s| {
                let mut n = vec![vec![s]];
                n.extend(v);
                Item::Keywords(n)
            });
            ("Keywords", it)
        }
        3 => {
            // a group
            g.put(&quoted);
            g.cf();
            g.put(b":");
            let m = g.mailboxes();
            g.put(b";");
            ("To", exp.map(|s| Item::To(vec![Address::G(vec![s], m)])))
        }
        4 => {
            g.put(b" text/plain");
            g.semi();
            g.put(b"name=");
            g.put(&quoted);
            let p = g.params(&["name"], 0);
            let it = exp.map(|s| {
                let mut p = p;
                p.insert(S::any("name"), s);
                Item::ContentType { ty: model::kw(b"text", model::TYPES), sub: S::any("plain"), params: p }
            });
            ("Content-Type", it)
        }
        5 => {
            g.put(b" attachment");
            g.semi();
            g.put(b"filename=");
            g.put(&quoted);
            g.cf();
            let it = exp.map(|s| {
                Item::ContentDisposition(Disp {
                    kind: model::kw(b"attachment", model::DISPS),
                    filename: Some(s),
                    creation: None,
                    modification: None,
                    read: None,
                    params: Params::new(),
                })
            });
            ("Content-Disposition", it)
        }
        _ => {
            // a word of a Received header
            g.put(b" from ");
            g.put(&quoted);
            g.put(b" ; ");
            g.date_time(true);
            ("Received", None)
        }
    };
    let (o, unsure) = (g.o, g.unsure);
    mail.push(name.as_bytes(), &o, if unsure { None } else { item });
    if name != "Received" {
        noise(&mut mail, c, Knobs::plain(), 1, &[name]);
        mail.need(c.s);
    }
    small_body(&mut mail, c);
    let b = mail.b.clone();
    c.o.nontrivial = true;
    let lname = name.to_ascii_lowercase();
    let sc = |i: &Item| match i {
        Item::Unknown { name, .. } => String::from_utf8_lossy(&name.t).to_ascii_lowercase() == lname,
        i => i.kind() == lname || (lname == "received" && i.kind() == "trace"),
    };
    let k = check_message(c, &b, &sc)?;
    if let Some(w) = &k.want {
        if mode == 0 {
            cross_check(w, &mail)?;
            built_recognised(w, &mail, c.sut.feats())?;
        }
        for it in &w.items {
            if sc(&it.item) {
                c.o.label(if it.item.kind() == "unknown" { L_DEG } else { L_REC });
            }
        }
    }
    Ok(())
}
fn c09_bare(c: &mut Ctx) -> Result<(), String> {
    let mime = c.sut.feats().mime;
    c.o.label(L_SPECIAL);
    let mut g = Gen::new(c.s, Knobs { cf: 0, ew: 0, mime });
    let pos = g.s.below(5);
    let v = match pos {
        0 => g.dot_atom_bytes(),
        3 | 4 => g.token_bytes(),
        _ => g.atom_bytes(),
    };
    if g.unsure {
        c.o.gray = true;
        return Ok(());
    }
    let mut q = Vec::new();
    q.push(b'"');
    for ch in &v {
        if matches!(ch, b'"' | b'\\') || g.s.pct(20) {
            q.push(b'\\');
        }
        q.push(*ch);
    }
    q.push(b'"');
    let (name, pre, post): (&str, &str, &str) = match pos {
        0 => ("To", " x@y, ", "@b.c"),
        1 => ("Sender", " ", " z <a@b.c>"),
        2 => ("Keywords", " a, ", " b"),
        3 => ("Content-Type", " text/html; A=", "; b=c"),
        _ => ("Content-Disposition", " inline; filename=", ""),
    };
    let mk = |v: &[u8]| {
        let mut m = Mail::default();
        let mut x = pre.as_bytes().to_vec();
        x.extend_from_slice(v);
        x.extend_from_slice(post.as_bytes());
        m.push(name.as_bytes(), &x, None);
        m.b
    };
    let (b1, b2) = (mk(&v), mk(&q));
    c.o.input = b2.clone();
    c.o.nontrivial = true;
    let mut au = Audit::default();
    let (r1, r2) = (c.sut.message(&b1, &mut au), c.sut.message(&b2, &mut au));
    match (r1, r2) {
        (Ok(a), Ok(b)) if !c.sut.feats().enabled(&name.to_ascii_lowercase()) => {
            let _ = (a, b);
            Ok(())
        }
        (Ok(a), Ok(b)) if a == b => {
            if a.items.len() == 1 && a.items[0].kind() != "unknown" {
                Ok(())
            } else {
                Err(clip(format!("not recognised: {:?}", a.items)))
            }
        }
        (a, b) => Err(clip(format!("bare gives {:?} and quoted gives {:?}", a, b))),
    }
}

// ---------------------------------------------------------------- C10
pub static C10: PropDef = PropDef {
    id: "C10",
    run: c10,
    labels: STD,
    rule: "Message-ID, Content-ID, In-Reply-To and References with 1-60 identifiers (dot-atoms, literals, CFWS between), edited, or with another header's value; non-trivial: such a header is present and its reading is specified; distinct by message bytes",
};
const IDS: &[&str] = &["message-id", "content-id", "in-reply-to", "references"];
fn c10(c: &mut Ctx) -> Result<(), String> {
    let cf = *c.s.pick(&[0u32, 15, 40]);
    let mut r = Recipe::new(&["Message-ID", "Content-ID", "In-Reply-To", "References"], knobs(c, cf, 0));
    r.modes = [45, 40, 8, 7];
    scheme(c, &r, IDS, &EScope::slots(&|n| IDS.contains(&n)))?;
    Ok(())
}

// ---------------------------------------------------------------- C11
pub static C11: PropDef = PropDef {
    id: "C11",
    run: c11,
    labels: &[
        "in range", "one field out of range", "printable edits", "arbitrary edits", "accepted", "rejected", "unspecified", "read as a date", "not a date", "Date", "Resent-Date", "Received", "disposition date", "leap second", "no seconds",
        "year above 9999",
    ],
    rule: "date-times written in every allowed form, or with one field at or beyond its limits, or edited, in Date, Resent-Date, Received and disposition dates; non-trivial: the reading is specified; distinct by message bytes",
};
fn c11(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[4, 4, 3, 1]);
    c.o.label(mode as u32);
    let cf = *c.s.pick(&[0u32, 0, 20]);
    let place = c.s.weighted(&[5, 2, 2, if f.cd { 3 } else { 0 }]);
    c.o.label(9 + place as u32);
    let mut g = Gen::new(c.s, Knobs { cf, ew: 0, mime: f.mime });
    let mut d = g.dt_value();
    if mode == 1 {
        match g.s.below(8) {
            0 => d.day = *g.s.pick(&[0u8, 31, 32, 33, 39, 40, 99, 30, 1]),
            1 => d.h = g.s.range(20, 99) as u8,
            2 => d.m = g.s.range(55, 99) as u8,
            3 => d.s = g.s.range(55, 99) as u8,
            4 => d.zm = g.s.range(55, 99) as u8,
            5 => d.year = g.s.number(0, 2100) as u64,
            6 => d.year = g.s.range(1850, 1950) as u64,
            _ => d.zh = g.s.range(0, 99) as u8,
        }
    }
    if d.s == 60 {
        c.o.label(13);
    }
    if d.year > 9999 {
        c.o.label(15);
    }
    let o0 = g.o.len();
    g.put_dt(&d, place != 3);
    let mut v = g.o.split_off(o0);
    if mode == 2 {
        tweak(g.s, &mut v);
    }
    let ok = mode == 0;
    let mut mail = Mail::default();
    match place {
        0 => {
            if ok {
                mail.push(b"Date", &v, Some(Item::Date(d.clone())));
            } else {
                mail.push(b"Date", &v, None);
            }
        }
        1 => {
            mail.push(b"Received", b" from x; 5 May 2003 18:58:34 +0000", None);
            mail.push(b"Resent-Date", &v, None);
        }
        2 => {
            let mut w = b" by mx.example.org;".to_vec();
            w.extend(&v);
            mail.push(b"Received", &w, None);
        }
        _ => {
            let n = *g.s.pick(&["creation-date", "modification-date", "read-date", "Creation-Date"]);
            let mut w = format!(" attachment; {}=\"", n).into_bytes();
            w.extend(&v);
            w.push(b'"');
            if g.s.pct(30) {
                w.extend_from_slice(b"; filename=a");
            }
            mail.push(b"Content-Disposition", &w, None);
        }
    }
    mail.need(c.s);
    let mut b = mail.b.clone();
    if mode == 3 {
        mutate(c.s, &mut b);
    }
    let kinds = ["date", "resent-date", "received", "content-disposition"];
    let sc = |i: &Item| match i {
        Item::Unknown { name, .. } => kinds.contains(&&String::from_utf8_lossy(&name.t).to_ascii_lowercase()[..]),
        Item::Trace(..) => true,
        i => kinds.contains(&i.kind()),
    };
    let k = check_message(c, &b, &sc)?;
    c.o.nontrivial = true;
    if let Some(w) = &k.want {
        if mode != 3 {
            cross_check(w, &mail)?;
            let good = match (place, w.items.first().map(|i| &i.item)) {
                (0, Some(Item::Date(x))) => Some(*x == d),
                (1, Some(Item::Trace(t))) => t.fields.first().map(|i| matches!(i, Item::Date(x) if *x == d)),
                (2, Some(Item::Trace(t))) => t.recv.first().map(|r| r.1 == d),
                (3, Some(Item::ContentDisposition(x))) => x.creation.as_ref().or(x.modification.as_ref()).or(x.read.as_ref()).map(|x| *x == d),
                _ => None,
            };
            let gray = w.items.first().map(|i| i.gray).unwrap_or(true);
            c.o.label(if good.is_some() { 7 } else { 8 });
            if mode == 0 && !gray && good != Some(true) {
                return Err(clip(format!("HARNESS: built {:?}, the model reads {:?}", d, w.items)));
            }
        }
    }
    if place == 0 {
        check_email(c, &b, 0, &EScope::slots(&|n| n == "date"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
pub static C12: PropDef = PropDef {
    id: "C12",
    run: c12,
    labels: STD,
    rule: "Subject, Comments, Content-Description and unknown headers with 0-300 words and arbitrary folding and white space, up to 60 kB, or edited; non-trivial: such a header is present and holds no encoded word; distinct by message bytes",
};
const TEXTS: &[&str] = &["subject", "comments", "content-description"];
fn c12(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[6, 3, 1]);
    c.o.label(mode as u32);
    let mut mail = Mail::default();
    let n = 1 + c.s.count(1, 5, 300);
    for i in 0..n {
        let which = c.s.weighted(&[3, 2, 2, 4]);
        let mut g = Gen::new(c.s, Knobs { cf: 0, ew: 0, mime: f.mime });
        let exp = if n <= 6 && g.s.pct(2) {
            // very long
            let k = g.s.number(200, 20_000) as usize;
            let unit: &[u8] = *g.s.pick(&[&b"word "[..], b"x", b"a\r\n b", b" \t.", b"(\"\\ "]);
            let mut t = b"s".to_vec();
            for _ in 0..k {
                t.extend_from_slice(unit);
            }
            t.push(b'e');
            g.put(&t);
            c.o.label(L_LONG);
            let t = String::from_utf8(t).unwrap().replace("\r\n", "");
            S::any(t)
        } else {
            g.text()
        };
        let (v, unsure) = (g.o, g.unsure);
        let name: Vec<u8> = match which {
            0 => b"Subject".to_vec(),
            1 => b"Comments".to_vec(),
            2 => b"Content-Description".to_vec(),
            _ => {
                let mut g = Gen::new(c.s, Knobs::plain());
                let n = g.field_name();
                if i > 0 || true {
                    n
                } else {
                    vec![]
                }
            }
        };
        let l = String::from_utf8_lossy(&name).to_ascii_lowercase();
        let item = match &l[..] {
            "subject" => Item::Subject(exp),
            "comments" => Item::Comments(exp),
            "content-description" => Item::ContentDescription(exp),
            _ => Item::Unknown { name: S::any(name.clone()), value: exp },
        };
        let plain_unknown = which == 3 && (KNOWN.iter().any(|k| k.eq_ignore_ascii_case(&l)) || l.starts_with("resent-") || l == "received" || l == "return-path");
        mail.push(&name, &v, if unsure || plain_unknown { None } else { Some(item) });
    }
    if mode == 1 {
        let i = c.s.below(mail.lines.len() as u32) as usize;
        let mut v = mail.value(&mail.lines[i]).to_vec();
        tweak(c.s, &mut v);
        set_value(&mut mail, i, &v);
    }
    let has = mail.lines.len();
    let mut b = mail.b.clone();
    if mode == 2 {
        mutate(c.s, &mut b);
    }
    c.o.nontrivial = has > 0 && !b.windows(2).any(|w| w == b"=?");
    if b.windows(2).any(|w| w == b"\r\n") {
        c.o.label(L_FOLD);
    }
    let sc = |i: &Item| matches!(i, Item::Unknown { .. }) || TEXTS.contains(&i.kind());
    let k = check_message(c, &b, &sc)?;
    if let (Some(w), true) = (&k.want, mode != 2) {
        cross_check(w, &mail)?;
    }
    if c.s.pct(30) && mode == 0 {
        let mut m2 = Mail::default();
        m2.need(c.s);
        let mut b2 = b.clone();
        b2.extend(m2.b);
        check_email(c, &b2, 0, &EScope { comments: true, unknown: true, ..EScope::slots(&|n| n == "subject") })?;
        c.o.input = b2;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
pub static C13: PropDef = PropDef {
    id: "C13",
    run: c13,
    labels: &[
        "valid as built", "printable edits", "arbitrary edits", "trace field after other headers", "accepted", "rejected", "unspecified", "several blocks", "malformed trace field", "one block", "return path", "empty return path", "resent fields",
    ],
    rule: "1-4 trace blocks (Return-Path, Received with words, addresses, domains and a date, Resent-* fields), followed by other headers, with edits, malformed fields or trace fields outside the leading blocks; non-trivial: at least one trace block is expected; distinct by message bytes",
};
fn c13(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[45, 25, 10, 20]);
    c.o.label(mode as u32);
    let cf = *c.s.pick(&[0u32, 10, 30]);
    let k = knobs(c, cf, 5);
    let mut mail = Mail::default();
    let blocks = 1 + c.s.count(1, 3, 300);
    for _ in 0..blocks {
        // built by hand so that the expected value is known
        mail.trace_block(c.s, k);
    }
    if c.s.pct(50) {
        noise(&mut mail, c, Knobs { cf: 0, ..k }, 2, &[]);
    }
    if mode == 3 {
        mail.unknown(c.s, k);
        let n = *c.s.pick(&["Resent-To", "Received", "Return-Path", "Resent-Message-ID", "Resent-Reply-To"]);
        if n.starts_with("Resent") {
            mail.known(c.s, k, n);
        } else {
            mail.trace_block(c.s, k);
        }
    }
    mail.need(c.s);
    if mode == 1 {
        for _ in 0..1 + c.s.count(1, 3, 60) {
            let i = c.s.below(mail.lines.len() as u32) as usize;
            let mut v = mail.value(&mail.lines[i]).to_vec();
            tweak(c.s, &mut v);
            set_value(&mut mail, i, &v);
        }
    }
    small_body(&mut mail, c);
    let mut b = mail.b.clone();
    if mode == 2 {
        mutate(c.s, &mut b);
    }
    let is_trace_name = |n: &[u8]| {
        let l = String::from_utf8_lossy(n).to_ascii_lowercase();
        l.starts_with("resent-") || l == "received" || l == "return-path"
    };
    let sc = |i: &Item| match i {
        Item::Trace(..) => true,
        Item::Unknown { name, .. } => is_trace_name(&name.t),
        _ => false,
    };
    let k = check_message(c, &b, &sc)?;
    if let Some(w) = &k.want {
        let n = w.items.iter().filter(|i| matches!(i.item, Item::Trace(..))).count();
        c.o.label(if n > 1 { 7 } else { 9 });
        c.o.nontrivial = n > 0;
        for i in &w.items {
            match &i.item {
                Item::Trace(t) => {
                    match &t.rp {
                        Some(None) => c.o.label(11),
                        Some(Some(_)) => c.o.label(10),
                        None => {}
                    }
                    if !t.fields.is_empty() {
                        c.o.label(12);
                    }
                }
                Item::Unknown { name, .. } if is_trace_name(&name.t) => c.o.label(8),
                _ => {}
            }
        }
        if mode == 0 && f.trace && n == 0 && !w.gray() {
            return Err("HARNESS: no trace block was built".into());
        }
        check_email(c, &b, 0, &EScope { trace: true, ..EScope::slots(&|_| false) })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
pub static C14: PropDef = PropDef {
    id: "C14",
    run: c14,
    labels: STD,
    rule: "texts and phrases mixing plain words with encoded words in all 19 charsets and both encodings, valid or damaged in charset, encoding, text or delimiters; non-trivial: the message holds `=?` and the reading is specified; distinct by message bytes",
};
fn c14(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[5, 5, 1]);
    c.o.label(mode as u32);
    let cf = *c.s.pick(&[0u32, 0, 15]);
    let k = Knobs { cf, ew: 60, mime: f.mime };
    let mut mail = Mail::default();
    for _ in 0..1 + c.s.size(1, 3) {
        match c.s.weighted(&[4, 2, 2, 3, 2, 2, 1]) {
            0 => mail.known(c.s, k, "Subject"),
            1 => mail.known(c.s, k, "Comments"),
            2 => mail.known(c.s, k, "Content-Description"),
            3 => {
                let n = format!("X-{}", c.s.below(9));
                let mut g = Gen::new(c.s, Knobs { mime: f.unrec, ..k });
                let exp = g.text();
                let (o, unsure) = (g.o, g.unsure);
                let it = Item::Unknown { name: S::any(n.clone()), value: exp };
                mail.push(n.as_bytes(), &o, if unsure { None } else { Some(it) });
            }
            4 => mail.known(c.s, k, "From"),
            5 => mail.known(c.s, k, "Keywords"),
            _ => mail.known(c.s, k, "To"),
        }
    }
    if mode == 1 {
        // damage an encoded word
        let i = c.s.below(mail.lines.len() as u32) as usize;
        let mut v = mail.value(&mail.lines[i]).to_vec();
        for _ in 0..1 + c.s.size(1, 3) {
            let starts: Vec<usize> = (0..v.len().saturating_sub(1)).filter(|i| &v[*i..i + 2] == b"=?").collect();
            if starts.is_empty() {
                break;
            }
            let a = *c.s.pick(&starts);
            let e = v[a..].windows(2).position(|w| w == b"?=").map(|p| a + p + 2).unwrap_or(v.len());
            let q: Vec<usize> = (a..e).filter(|i| v[*i] == b'?').collect();
            match c.s.weighted(&[2, 2, 2, 2, 1, 1, 2]) {
                0 => {
                    // another charset name
                    let t = *c.s.pick(&["x-unknown", "utf-7", "koi8-r", "iso-8859-12", "utf8", "iso-8859-17", "", "us-ascii", "utf-8x", "gb18030"]);
                    if q.len() >= 2 {
                        v.splice(a + 2..q[1], t.bytes());
                    }
                }
                1 => {
                    // another encoding
                    if q.len() >= 3 {
                        let t = *c.s.pick(&["x", "bb", "qb", "", "B", "Q"]);
                        v.splice(q[1] + 1..q[2], t.bytes());
                    }
                }
                2 => {
                    // a byte of the text
                    if q.len() >= 3 && e > q[2] + 3 {
                        let i = q[2] + 1 + c.s.below((e - q[2] - 3) as u32) as usize;
                        match c.s.below(3) {
                            0 => v[i] = *c.s.pick(b"=_ ?%!A9"),
                            1 => {
                                v.remove(i);
                            }
                            _ => v.insert(i, *c.s.pick(b"=_F+/8")),
                        }
                    }
                }
                3 => {
                    // a byte of the frame
                    if !q.is_empty() {
                        let i = *c.s.pick(&q);
                        if c.s.pct(50) {
                            v.remove(i);
                        } else {
                            v[i] = *c.s.pick(b"=?*! x");
                        }
                    }
                }
                4 => {
                    let i = e.min(v.len());
                    v.insert(i, *c.s.pick(b"x?=. "));
                }
                5 => v.insert(a, *c.s.pick(b"x?=. (")),
                _ => {
                    v.truncate(e.saturating_sub(1 + c.s.size(1, 6)).max(a + 1));
                }
            }
        }
        set_value(&mut mail, i, &v);
    }
    if c.s.pct(40) {
        mail.need(c.s);
    }
    let mut b = mail.b.clone();
    if mode == 2 {
        mutate(c.s, &mut b);
    }
    c.o.nontrivial = b.windows(2).any(|w| w == b"=?");
    if c.o.nontrivial {
        c.o.label(L_EW);
    }
    let sc = |_: &Item| true;
    let k = check_message(c, &b, &sc)?;
    if let (Some(w), true) = (&k.want, mode != 2) {
        cross_check(w, &mail)?;
    }
    if mode == 0 {
        check_email(c, &b, 0, &EScope { comments: true, unknown: true, keywords: true, ..EScope::slots(&|_| true) })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C17
pub static C17: PropDef = PropDef {
    id: "C17",
    run: c17,
    labels: STD,
    rule: "Content-Type headers with known, near-miss and unknown types, 0-10 parameters in any order, case and quoting, edited or replaced; non-trivial: the header is present and its reading is specified; distinct by message bytes",
};
fn c17(c: &mut Ctx) -> Result<(), String> {
    let cf = *c.s.pick(&[0u32, 0, 15, 40]);
    let mut r = Recipe::new(&["Content-Type"], knobs(c, cf, 0));
    r.more = 0;
    r.modes = [50, 38, 6, 6];
    scheme(c, &r, &["content-type"], &EScope { ent: false, ..EScope::slots(&|n| n == "content-type") })?;
    ent_of_email(c, |g, w| g.ty == w.ty && g.sub == w.sub && g.params == w.params)?;
    for (it, comp) in c.sut.composite(&c.o.input).unwrap_or_default() {
        if let Item::ContentType { ty, .. } = &it {
            if comp != (ty.known && (ty.name.t == b"message" || ty.name.t == b"multipart")) {
                return Err(format!("is_composite_type of {:?} is {}", ty, comp));
            }
        }
    }
    Ok(())
}
/// part of the entity of the email
fn ent_of_email(c: &mut Ctx, same: fn(&Ent, &Ent) -> bool) -> Result<(), String> {
    let b = c.o.input.clone();
    let mut au = Audit::default();
    if let ERes::Ok(w) = model::email(&b, c.sut.feats(), 0) {
        if let (Ok(g), Some(w)) = (c.sut.email(&b, 0, &mut au), w.ent) {
            match g.ent {
                Some(g) if same(&g, &w) => {}
                g => return Err(clip(format!("entity of the email: got {:?}, expected {:?}", g, w))),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
pub static C18: PropDef = PropDef {
    id: "C18",
    run: c18,
    labels: &[
        "valid as built", "printable edits", "segment dropped or renumbered", "", "accepted", "rejected", "unspecified", "focus recognised", "focus degraded", "many segments", "unknown charset", "plain segments", "encoded segments", "in Content-Disposition",
    ],
    rule: "Content-Type and Content-Disposition with RFC 2231 parameters (segments in any order, encoded or plain, 19 charsets and unknown ones, up to 256 segments), valid, with segments dropped or renumbered, or edited; non-trivial: the header is present and its reading is specified; distinct by message bytes",
};
fn c18(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[5, 3, 3]);
    c.o.label(mode as u32);
    let disp = f.cd && c.s.pct(35);
    let cf = *c.s.pick(&[0u32, 0, 12]);
    let mut g = Gen::new(c.s, Knobs { cf, ew: 0, mime: f.mime });
    let mut exp = Params::new();
    let mut pieces: Vec<(Vec<u8>, Vec<u8>, bool)> = Vec::new();
    for _ in 0..1 + g.s.count(1, 3, 300) {
        let name = if disp && g.s.pct(60) { b"filename".to_vec() } else { g.param_name() };
        let l = name.to_ascii_lowercase();
        if exp.contains_key(&l) || (disp && l.ends_with(b"-date")) {
            continue;
        }
        if g.s.pct(12) {
            let v = g.param_value();
            pieces.push((name, v.clone(), true));
            exp.insert(S::any(l), S::any(v));
            continue;
        }
        let max = if g.s.pct(6) { g.s.number(100, 256) } else { 8 };
        if max > 20 {
            c.o.label(9);
        }
        let (ps, v) = g.ext_param(max);
        for (suffix, val, q) in ps {
            c.o.label(if suffix.ends_with('*') { 12 } else { 11 });
            if val.starts_with(b"x-unknown") {
                c.o.label(10);
            }
            let mut n = name.clone();
            n.extend(suffix.bytes());
            pieces.push((n, val, q));
        }
        exp.insert(S::any(l), S::any(v));
    }
    let mut changed = false;
    if mode == 2 {
        for _ in 0..1 + g.s.size(1, 2) {
            if pieces.is_empty() {
                break;
            }
            changed = true;
            let i = g.s.below(pieces.len() as u32) as usize;
            match g.s.below(3) {
                0 => {
                    pieces.remove(i);
                }
                1 => {
                    // another number
                    let n = pieces[i].0.clone();
                    if let Some(p) = n.iter().position(|c| *c == b'*') {
                        let enc = n.len() > p + 1 && n.ends_with(b"*");
                        let k = g.s.number(0, 300);
                        let mut m = n[..p].to_vec();
                        m.extend(format!("*{}{}", k, if enc { "*" } else { "" }).bytes());
                        pieces[i].0 = m;
                    }
                }
                _ => {
                    let n = pieces[i].0.clone();
                    if n.ends_with(b"*") {
                        pieces[i].0.pop();
                    } else if n.contains(&b'*') {
                        pieces[i].0.push(b'*');
                    }
                }
            }
        }
    }
    if g.s.pct(70) {
        for i in (1..pieces.len()).rev() {
            let j = g.s.below(i as u32 + 1) as usize;
            pieces.swap(i, j);
        }
    }
    if disp {
        c.o.label(13);
        g.put(b" attachment");
    } else {
        g.put(b" application/x-y");
    }
    for (n, v, q) in &pieces {
        if *q {
            g.put_param(n, v);
        } else {
            g.semi();
            let m = g.case_mix(n);
            g.put(&m);
            g.put(b"=");
            g.put(v);
        }
    }
    g.cf();
    let (mut v, unsure) = (g.o, g.unsure);
    let item = if unsure || changed {
        None
    } else if disp {
        let mut p = exp.clone();
        let filename = p.remove(&b"filename"[..]);
        Some(Item::ContentDisposition(Disp { kind: model::kw(b"attachment", model::DISPS), filename, creation: None, modification: None, read: None, params: p }))
    } else {
        Some(Item::ContentType { ty: model::kw(b"application", model::TYPES), sub: S::any("x-y"), params: exp })
    };
    if mode == 1 {
        tweak(c.s, &mut v);
    }
    let mut mail = Mail::default();
    let name = if disp { "Content-Disposition" } else { "Content-Type" };
    mail.push(name.as_bytes(), &v, if mode == 1 { None } else { item });
    if c.s.pct(30) {
        mail.need(c.s);
    }
    let b = mail.b.clone();
    c.o.nontrivial = true;
    let lname = name.to_ascii_lowercase();
    let sc = |i: &Item| match i {
        Item::Unknown { name, .. } => String::from_utf8_lossy(&name.t).to_ascii_lowercase() == lname,
        i => i.kind() == lname,
    };
    let k = check_message(c, &b, &sc)?;
    if let Some(w) = &k.want {
        cross_check(w, &mail)?;
        built_recognised(w, &mail, f)?;
        if w.items[0].gray {
            c.o.gray = true;
        }
        c.o.label(if w.items[0].item.kind() == "unknown" { L_DEG } else { L_REC });
    }
    ent_of_email(c, |g, w| g.params == w.params && g.disp == w.disp)
}

// ---------------------------------------------------------------- C19
pub static C19: PropDef = PropDef {
    id: "C19",
    run: c19,
    labels: STD,
    rule: "Content-Disposition headers with known, near-miss and unknown types, file names (plain, quoted, RFC 2231), dates and other parameters in any order, edited or replaced; non-trivial: the header is present and its reading is specified; distinct by message bytes",
};
fn c19(c: &mut Ctx) -> Result<(), String> {
    let cf = *c.s.pick(&[0u32, 0, 15, 40]);
    let mut r = Recipe::new(&["Content-Disposition"], knobs(c, cf, 0));
    r.more = 0;
    r.modes = [55, 33, 6, 6];
    scheme(c, &r, &["content-disposition"], &EScope::slots(&|_| false))?;
    ent_of_email(c, |g, w| g.disp == w.disp)
}

// ---------------------------------------------------------------- C27
pub static C27: PropDef = PropDef {
    id: "C27",
    run: c27,
    labels: STD,
    rule: "1-6 Keywords and Comments headers with 1-60 phrases each, valid, edited (empty phrases, missing and trailing commas), or replaced; non-trivial: such a header is present and its reading is specified; distinct by message bytes",
};
fn c27(c: &mut Ctx) -> Result<(), String> {
    let cf = *c.s.pick(&[0u32, 10, 30]);
    let mut r = Recipe::new(&["Keywords", "Keywords", "Comments"], knobs(c, cf, 12));
    r.repeat = true;
    r.more = 2;
    r.modes = [50, 36, 6, 8];
    scheme(c, &r, &["keywords", "comments"], &EScope { keywords: true, comments: true, ..EScope::slots(&|_| false) })?;
    Ok(())
}
