//! Metamorphic relations between two messages, and where results live.
use super::*;
use crate::tape::Src;

const TRACE_NAMES: &[&str] = &["received", "return-path"];
fn traceish(n: &str) -> bool {
    TRACE_NAMES.contains(&n) || n.starts_with("resent-")
}
/// a message from lines
fn assemble(lines: &[(Vec<u8>, Vec<u8>)], body: Option<&[u8]>) -> Vec<u8> {
    let mut b = Vec::new();
    for (n, v) in lines {
        b.extend_from_slice(n);
        b.push(b':');
        b.extend_from_slice(v);
        b.extend_from_slice(b"\r\n");
    }
    if let Some(t) = body {
        b.extend_from_slice(b"\r\n");
        b.extend_from_slice(t);
    }
    b
}
fn lines_of(m: &Mail) -> Vec<(Vec<u8>, Vec<u8>)> {
    m.lines.iter().map(|l| (l.name.clone(), m.value(l).to_vec())).collect()
}
fn get(c: &mut Ctx, b: &[u8]) -> SutRes<Msg> {
    let mut au = Audit::default();
    c.sut.message(b, &mut au)
}
fn get_email(c: &mut Ctx, b: &[u8], depth: usize) -> SutRes<EmailV> {
    let mut au = Audit::default();
    c.sut.email(b, depth, &mut au)
}
/// is what the model says about this message complete?
fn settled(b: &[u8], f: Feats) -> bool {
    match model::message(b, f) {
        MRes::Ok(m) => !m.gray(),
        MRes::Reject => true,
        MRes::Gray => false,
    }
}
fn no_case(i: &Item) -> Item {
    match i {
        Item::Unknown { name, value } => Item::Unknown { name: S { t: name.lower(), p: name.p }, value: value.clone() },
        i => i.clone(),
    }
}

// ---------------------------------------------------------------- C06
pub static C06: PropDef = PropDef {
    id: "C06",
    run: c06,
    labels: &["letter case changed", "lines permuted", "both", "near-miss names", "accepted", "rejected", "", "with trace block", "repeated names", "email compared", "malformed values"],
    rule: "messages of 1-24 header lines (valid, malformed, unknown, repeated) after optional trace blocks; every name gets a random letter case and lines of different names are permuted (same-name lines keep their order); or known names are lengthened, shortened or altered by one character; non-trivial: at least two lines; distinct by message bytes",
};
fn c06(c: &mut Ctx) -> Result<(), String> {
    let k = knobs(c, 6, 8);
    let mut mail = Mail::default();
    while c.s.pct(25) {
        mail.trace_block(c.s, k);
        c.o.label(7);
    }
    let head = mail.lines.len();
    let near = c.s.pct(25);
    let n = 1 + c.s.count(6, 24, 300);
    for _ in 0..n {
        match c.s.weighted(&[8, 2]) {
            0 => {
                let t = *c.s.pick(&KNOWN[..]);
                if mail.lines[head..].iter().any(|l| l.lname().eq_ignore_ascii_case(t)) {
                    if c.s.pct(75) {
                        continue;
                    }
                    c.o.label(8);
                }
                mail.known(c.s, k, t);
                if c.s.pct(12) {
                    let i = mail.lines.len() - 1;
                    let mut v = mail.value(&mail.lines[i]).to_vec();
                    tweak(c.s, &mut v);
                    set_value(&mut mail, i, &v);
                    c.o.label(10);
                }
            }
            _ => {
                mail.unknown(c.s, k);
                let l = mail.lines.last().unwrap().lname();
                if traceish(&l) {
                    // it would belong to the trace block in some orders
                    let at = mail.b.len();
                    let ln = mail.lines.pop().unwrap();
                    mail.b.truncate(at - (ln.val.1 - ln.val.0) - ln.name.len() - 3);
                }
            }
        }
    }
    if !c.s.pct(20) {
        mail.need(c.s);
    }
    let mut body: Option<Vec<u8>> = None;
    if c.s.pct(50) {
        let mut g = Gen::new(c.s, Knobs::plain());
        g.ascii_body();
        body = Some(g.o);
    }
    let f = c.sut.feats();
    let base = lines_of(&mail);
    let b1 = assemble(&base, body.as_deref());
    c.o.input = b1.clone();
    c.o.nontrivial = base.len() >= 2;
    let g1 = match get(c, &b1) {
        Ok(g) => g,
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(_) => {
            c.o.label(5);
            if settled(&b1, f) && !matches!(model::message(&b1, f), MRes::Reject) {
                return Err("a valid message is rejected".into());
            }
            return Ok(());
        }
    };
    c.o.label(4);
    if near {
        c.o.label(3);
        // one name is altered: it must become an unknown field
        let at = head + c.s.below((base.len() - head).max(1) as u32) as usize;
        if at >= base.len() {
            return Ok(());
        }
        let mut b2 = base.clone();
        let name = {
            let n = &base[at].0;
            let mut v = n.clone();
            match c.s.weighted(&[3, 3, 3, 1, 1, 4]) {
                5 => {
                    // one bit apart from the name: often no name at all
                    let i = c.s.below(v.len() as u32) as usize;
                    v[i] ^= *c.s.pick(&[0x20, 0x40, 0x10, 0x80, 1, 2, 4, 8]);
                }
                0 => v.push(*c.s.pick(b"s-x1aA_")),
                1 => {
                    v.pop();
                }
                2 => {
                    let i = c.s.below(v.len() as u32) as usize;
                    let x = match c.s.below(3) {
                        0 => v[i].wrapping_add(1),
                        1 => v[i] ^ 0x40,
                        _ => c.s.range(33, 126) as u8,
                    };
                    v[i] = if model::ftext(x) { x } else { b'_' };
                }
                3 => {
                    v.remove(0);
                }
                _ => v.insert(0, *c.s.pick(b"xX-")),
            }
            if v.is_empty() {
                v.push(b'Q');
            }
            v
        };
        let l = String::from_utf8_lossy(&name).to_ascii_lowercase();
        b2[at].0 = name.clone();
        let m2 = assemble(&b2, body.as_deref());
        c.o.input = m2.clone();
        if f.enabled(&l) || traceish(&l) || !settled(&m2, f) {
            return Ok(());
        }
        if matches!(model::message(&m2, f), MRes::Reject) {
            // the value reads as structured but is not free text
            return match get(c, &m2) {
                Ok(_) => Err("accepted after renaming, but the name is not a name or the value is not free text".into()),
                Err(_) => Ok(()),
            };
        }
        let g2 = get(c, &m2).map_err(|e| format!("rejected after renaming a header to {:?}: {}", esc(&name), show_fail(&e)))?;
        if !name.iter().all(|x| model::ftext(*x)) {
            return Ok(());
        }
        let m1 = match model::message(&b1, f) {
            MRes::Ok(m) => m,
            _ => return Ok(()),
        };
        let Some(pos) = m1.items.iter().position(|i| i.lines.0 <= at && at < i.lines.1) else { return Ok(()) };
        if m1.items.len() != g2.items.len() || m1.items[pos].item.kind() == "trace" {
            if m1.items[pos].item.kind() == "trace" {
                return Ok(());
            }
            return Err(clip(format!("{} items after renaming, {} before: {:?}", g2.items.len(), m1.items.len(), g2.items)));
        }
        match &g2.items[pos] {
            Item::Unknown { name: n, .. } if n.t == name => {}
            i => return Err(clip(format!("the field {:?} is reported as {:?}", esc(&name), i))),
        }
        for (i, (x, y)) in g1.items.iter().zip(&g2.items).enumerate() {
            if i != pos && x != y {
                return Err(clip(format!("renaming one header changed another: {:?} became {:?}", x, y)));
            }
        }
        return Ok(());
    }
    let mode = c.s.weighted(&[3, 3, 4]);
    c.o.label(mode as u32);
    // permute the lines after the trace blocks, keeping same names in order
    let mut rest: Vec<(Vec<u8>, Vec<u8>)> = base[head..].to_vec();
    if mode >= 1 {
        let names: Vec<Vec<u8>> = rest.iter().map(|l| l.0.to_ascii_lowercase()).collect();
        let mut order: Vec<usize> = (0..rest.len()).collect();
        for i in (1..order.len()).rev() {
            let j = c.s.below(i as u32 + 1) as usize;
            order.swap(i, j);
        }
        // give the slots of each name to its lines in order
        let mut taken: std::collections::BTreeMap<Vec<u8>, usize> = Default::default();
        let mut out = Vec::new();
        for i in order {
            let nm = &names[i];
            let k = taken.entry(nm.clone()).or_insert(0);
            let idx = (0..rest.len()).filter(|j| names[*j] == *nm).nth(*k).unwrap();
            *k += 1;
            out.push(rest[idx].clone());
        }
        rest = out;
    }
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = base[..head].to_vec();
    all.extend(rest);
    if mode != 1 {
        for l in all.iter_mut() {
            let how = c.s.below(3);
            l.0 = match how {
                0 => l.0.to_ascii_uppercase(),
                1 => l.0.to_ascii_lowercase(),
                _ => l.0.iter().map(|x| if c.s.pct(50) { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect(),
            };
        }
    }
    let b2 = assemble(&all, body.as_deref());
    let g2 = get(c, &b2).map_err(|e| format!("rejected after the change ({}): {:?}", show_fail(&e), esc_bytes(&b2)))?;
    if g1.body != g2.body {
        return Err("the body changed".into());
    }
    for (g, lines) in [(&g1, &base), (&g2, &all)] {
        // unknown names come as they were written
        let mut written: Vec<&Vec<u8>> = lines.iter().map(|l| &l.0).collect();
        for i in &g.items {
            if let Item::Unknown { name, .. } = i {
                match written.iter().position(|w| w[..] == name.t[..]) {
                    Some(k) => {
                        written.swap_remove(k);
                    }
                    None => return Err(clip(format!("no header is named {:?} (as often as that)", name))),
                }
            }
        }
    }
    let key = |g: &Msg| {
        let mut v: Vec<Item> = g.items.iter().map(no_case).collect();
        if mode >= 1 {
            // order among different names is not compared
            v.sort_by_key(|i| match i {
                Item::Unknown { name, .. } => String::from_utf8_lossy(&name.t).into_owned(),
                i => i.kind().to_string(),
            });
        }
        v
    };
    // a malformed known header and an unknown one never share a name, so sorting by name keeps equal names in order;
    // a recognised and a malformed header of one name may interleave: compare them as sets of their own
    let (x, y) = (key(&g1), key(&g2));
    if x.len() != y.len() {
        return Err(clip(format!("{} items became {}: {:?}", x.len(), y.len(), esc_bytes(&b2))));
    }
    for (x, y) in x.iter().zip(&y) {
        if x != y {
            return Err(clip(format!("{:?} became {:?} in {}", x, y, esc_bytes(&b2))));
        }
    }
    let (e1, e2) = (get_email(c, &b1, 0), get_email(c, &b2, 0));
    match (e1, e2) {
        (Ok(mut a), Ok(mut b)) => {
            c.o.label(9);
            for (e, g) in [(&mut a, &g1), (&mut b, &g2)] {
                let names: Vec<&S> = g.items.iter().filter_map(|i| if let Item::Unknown { name, .. } = i { Some(name) } else { None }).collect();
                if names.len() != e.unknown.len() || names.iter().zip(&e.unknown).any(|(n, u)| n.t != u.0.t) {
                    return Err(clip(format!("the message has the unknown names {:?}, the email {:?}", names, e.unknown)));
                }
                for u in e.unknown.iter_mut() {
                    u.0.t.make_ascii_lowercase();
                }
                if mode >= 1 {
                    e.unknown.sort_by(|x, y| x.0.t.cmp(&y.0.t));
                }
            }
            if a != b {
                return Err(clip(format!("email {:?} became {:?}", a, b)));
            }
        }
        (Err(Fail::Err(_)), Err(Fail::Err(_))) => {}
        (a, b) => {
            return Err(clip(format!("email: {} before, {} after", a.map(|_| "accepted".to_string()).unwrap_or_else(|e| show_fail(&e)), b.map(|_| "accepted".to_string()).unwrap_or_else(|e| show_fail(&e)))))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
pub static C08: PropDef = PropDef {
    id: "C08",
    run: c08,
    labels: &["inserted", "removed", "replaced", "trace", "addresses", "identifiers", "keywords", "date", "MIME", "unspecified", "at the end", "nested comment", "fold"],
    rule: "one valid structured header of each kind (or a trace block) with comments and folds at a random subset of the places the grammar allows, against a variant with another subset; non-trivial: the two differ; distinct by the pair",
};
fn vary(s: &mut Src, v: &[u8], cuts: &[Cut], mode: usize) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    let mut at = 0;
    for cut in cuts {
        if cut.a < at {
            continue;
        }
        o.extend_from_slice(&v[at..cut.a]);
        at = cut.z;
        let was = &v[cut.a..cut.z];
        let change = s.pct(if cuts.len() > 12 { 35 } else { 60 });
        if !change {
            push_ws(&mut o, was, v.get(cut.z).copied());
            continue;
        }
        let opt = matches!(cut.kind, CutKind::Cf | CutKind::Fw);
        let empty = match mode {
            0 => false,
            1 => true,
            _ => s.pct(30),
        };
        if empty && opt {
            continue;
        }
        let mut g = Gen::new(s, Knobs { cf: 50, ew: 0, mime: false });
        match cut.kind {
            CutKind::Cf | CutKind::Req => g.cfws_req(),
            _ => g.fws(),
        }
        let t = g.o;
        let n = o.len();
        push_ws(&mut o, &t, v.get(cut.z).copied());
        if o.len() == n && !opt {
            let p = matches!(o.last(), Some(b' ' | b'\t'));
            if !p {
                push_ws(&mut o, was, v.get(cut.z).copied());
            }
        }
    }
    o.extend_from_slice(&v[at..]);
    o
}
/// appends white space and comments so that no two folds touch
fn push_ws(o: &mut Vec<u8>, t: &[u8], next: Option<u8>) {
    let mut t = t;
    if matches!(o.last(), Some(b' ' | b'\t')) {
        while matches!(t.first(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            t = &t[1..];
        }
    }
    if matches!(next, Some(b' ' | b'\t' | b'\r')) {
        while matches!(t.last(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            t = &t[..t.len() - 1];
        }
    }
    o.extend_from_slice(t);
}
fn c08(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let cf = *c.s.pick(&[0u32, 25, 60]);
    let k = knobs(c, cf, 4);
    let mut mail = Mail::default();
    const STRUCTURED: [&str; 16] = [
        "From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "Content-ID", "In-Reply-To", "References", "Keywords", "Date", "MIME-Version", "Content-Type",
        "Content-Transfer-Encoding", "Content-Disposition",
    ];
    if c.s.pct(15) {
        mail.trace_block(c.s, k);
        c.o.label(3);
    } else {
        let t = *c.s.pick(&STRUCTURED[..]);
        if !f.enabled(&t.to_ascii_lowercase()) {
            return Ok(());
        }
        mail.known(c.s, k, t);
        c.o.label(match t {
            "From" | "Sender" | "Reply-To" | "To" | "Cc" | "Bcc" => 4,
            "Message-ID" | "Content-ID" | "In-Reply-To" | "References" => 5,
            "Keywords" => 6,
            "Date" => 7,
            _ => 8,
        });
    }
    let mode = c.s.weighted(&[4, 3, 4]);
    c.o.label(mode as u32);
    let base = lines_of(&mail);
    let mut other = base.clone();
    for (i, l) in mail.lines.iter().enumerate() {
        let v = vary(c.s, &base[i].1, &l.cuts, mode);
        if let Some(last) = l.cuts.last() {
            if last.z == base[i].1.len() && !v.ends_with(&base[i].1[base[i].1.len().saturating_sub(4)..]) {
                c.o.label(10);
            }
        }
        other[i].1 = v;
    }
    c.s.label(0);
    let b1 = assemble(&base, None);
    let b2 = assemble(&other, None);
    c.o.nontrivial = b1 != b2;
    c.o.input = b1.clone();
    c.o.input.extend_from_slice(b"|");
    c.o.input.extend_from_slice(&b2);
    if b2.windows(2).any(|w| w == b"((") {
        c.o.label(11);
    }
    if b2.windows(3).any(|w| w == b"\r\n " || w == b"\r\n\t") {
        c.o.label(12);
    }
    match (model::message(&b1, f), model::message(&b2, f)) {
        (MRes::Ok(m1), MRes::Ok(m2)) => {
            if m1.gray() || m2.gray() {
                c.o.gray = true;
                c.o.label(9);
                return Ok(());
            }
            let v = |m: &MMsg| m.items.iter().map(|i| i.item.clone()).collect::<Vec<_>>();
            if m1.items.iter().zip(&mail.lines).any(|(i, l)| matches!(i.item, Item::Unknown { .. }) && f.enabled(&l.lname())) {
                // the value itself is degraded (an unknown character set)
                return Ok(());
            }
            if v(&m1) != v(&m2) {
                return Err(clip(format!("HARNESS: the model reads {:?} and {:?}", v(&m1), v(&m2))));
            }
        }
        (MRes::Gray, _) | (_, MRes::Gray) => {
            c.o.gray = true;
            c.o.label(9);
            return Ok(());
        }
        _ => return Err("HARNESS: built an invalid message".into()),
    }
    let g1 = get(c, &b1).map_err(|e| format!("rejected: {}", show_fail(&e)))?;
    let g2 = get(c, &b2).map_err(|e| format!("rejected after changing comments and folds: {}", show_fail(&e)))?;
    if g1.items != g2.items {
        for (x, y) in g1.items.iter().zip(&g2.items) {
            if x != y {
                return Err(clip(format!("{:?} became {:?}", x, y)));
            }
        }
        return Err("the number of items changed".into());
    }
    // recognised in both
    for (x, l) in g1.items.iter().zip(&mail.lines) {
        if matches!(x, Item::Unknown { .. }) && l.exp.is_some() {
            return Err(clip(format!("not recognised with or without comments: {:?}", x)));
        }
    }
    if c.o.labels >> 3 & 1 == 1 && f.trace && !matches!(g1.items.first(), Some(Item::Trace(_))) {
        return Err(clip(format!("the trace block is not recognised: {:?}", g1.items)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
pub static C23: PropDef = PropDef {
    id: "C23",
    run: c23,
    labels: STD,
    rule: "messages with every kind of header (valid, edited, unknown, repeated), parsed in this feature set and compared with the reference model restricted to the same features: items, order, text, body and email; non-trivial: at least two header lines; distinct by message bytes",
};
fn c23(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let k = Knobs { cf: *c.s.pick(&[0u32, 8]), ew: 12, mime: true };
    let mut mail = Mail::default();
    while c.s.pct(20) {
        mail.trace_block(c.s, k);
        c.o.label(L_TRACE);
    }
    let mode = c.s.weighted(&[50, 35, 15]);
    c.o.label(mode as u32);
    for _ in 0..1 + c.s.size(5, 20) {
        if c.s.pct(15) {
            mail.unknown(c.s, k);
            continue;
        }
        let t = *c.s.pick(&KNOWN[..]);
        if mail.lines.iter().any(|l| l.lname().eq_ignore_ascii_case(t)) && !c.s.pct(5) {
            continue;
        }
        if t.eq_ignore_ascii_case("Content-Transfer-Encoding") && c.s.pct(60) {
            continue;
        }
        mail.known(c.s, k, t);
        if mode == 1 && c.s.pct(30) {
            let i = mail.lines.len() - 1;
            let mut v = mail.value(&mail.lines[i]).to_vec();
            tweak(c.s, &mut v);
            set_value(&mut mail, i, &v);
        }
    }
    if !c.s.pct(15) {
        mail.need(c.s);
    }
    small_body(&mut mail, c);
    let mut b = mail.b.clone();
    if mode == 2 {
        mutate(c.s, &mut b);
    }
    c.o.nontrivial = mail.lines.len() >= 2;
    let k = check_message(c, &b, &|_| true)?;
    if let (Some(g), Some(w)) = (&k.got, &k.want) {
        if g.body.as_ref().map(|s| &s.t[..]) != w.body.map(|i| &b[i..]) {
            return Err(clip(format!("body: got {:?}", g.body)));
        }
    }
    // entities are the business of other checks, except for what this one is about
    check_email(c, &b, 0, &EScope { ent: true, errors: true, ..EScope::all() })?;
    let _ = f;
    Ok(())
}

// ---------------------------------------------------------------- C26
pub static C26: PropDef = PropDef {
    id: "C26",
    run: c26,
    labels: &["edited value", "value of another kind", "random text", "still valid", "first", "last", "middle", "with trace block", "with body", "unspecified", "unique header also present", "header of a trace block"],
    rule: "messages in which one known header (every kind, also those of a trace block) has a malformed but printable value, against the same message with an arbitrary unknown header in its place; non-trivial: the header is malformed; distinct by message bytes",
};
fn c26(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let k = knobs(c, 6, 8);
    let mut mail = Mail::default();
    if c.s.pct(20) {
        mail.trace_block(c.s, k);
        c.o.label(7);
    }
    noise(&mut mail, c, k, 2, &[]);
    let at = mail.lines.len();
    let resent = c.s.pct(15);
    let t = if resent {
        c.o.label(11);
        *c.s.pick(&["Resent-Date", "Resent-From", "Resent-Sender", "Resent-To", "Resent-Cc", "Resent-Bcc", "Resent-Message-ID", "Received", "Return-Path"])
    } else {
        *c.s.pick(&KNOWN[..])
    };
    let lname = t.to_ascii_lowercase();
    match t {
        "Received" | "Return-Path" => {
            let mut g = Gen::new(c.s, k);
            if t == "Received" {
                g.received();
            } else {
                g.return_path();
            }
            let v = g.o;
            mail.push(t.as_bytes(), &v, None);
        }
        _ => mail.known(c.s, k, t),
    }
    if resent && c.s.pct(50) {
        // the rest of a trace block after it
        let t = *c.s.pick(&["Resent-Date", "Resent-From", "Resent-To", "Resent-Message-ID"]);
        mail.known(c.s, k, t);
    }
    let mode = c.s.weighted(&[6, 2, 2]);
    c.o.label(mode as u32);
    let mut v = mail.value(&mail.lines[at]).to_vec();
    match mode {
        0 => tweak(c.s, &mut v),
        1 => {
            let o = *c.s.pick(&KNOWN[..]);
            let mut g = Gen::new(c.s, k);
            g.put(b" ");
            g.value(&o.to_ascii_lowercase());
            v = g.o;
        }
        _ => {
            let mut g = Gen::new(c.s, k);
            g.text();
            v = g.o;
        }
    }
    set_value(&mut mail, at, &v);
    noise(&mut mail, c, k, 2, &[]);
    mail.need(c.s);
    if at == 0 {
        c.o.label(4);
    } else {
        c.o.label(6);
    }
    let mut body: Option<Vec<u8>> = None;
    if c.s.pct(60) {
        let mut g = Gen::new(c.s, Knobs::plain());
        g.ascii_body();
        body = Some(g.o);
        c.o.label(8);
    }
    let base = lines_of(&mail);
    let b1 = assemble(&base, body.as_deref());
    c.o.input = b1.clone();
    let m1 = match model::message(&b1, f) {
        MRes::Ok(m) => m,
        _ => {
            c.o.gray = true;
            return Ok(());
        }
    };
    let Some(pos) = m1.items.iter().position(|i| i.lines == (at, at + 1)) else { return Ok(()) };
    if m1.items[pos].gray || !(f.enabled(&lname) || resent && f.trace) {
        c.o.gray = true;
        c.o.label(9);
        return Ok(());
    }
    let Item::Unknown { name, value } = &m1.items[pos].item else {
        c.o.label(3);
        return Ok(());
    };
    c.o.nontrivial = true;
    let g1 = match get(c, &b1) {
        Err(Fail::Err(_)) if m1.gray() => {
            // another header whose reading is not fixed
            c.o.gray = true;
            c.o.label(9);
            return Ok(());
        }
        r => r.map_err(|e| format!("one malformed {} makes the message fail: {}", t, show_fail(&e)))?,
    };
    // the other message
    let mut base2 = base.clone();
    let mut g = Gen::new(c.s, Knobs { cf: 0, ew: 0, mime: f.mime });
    let n2 = format!("X-{}", (b'A' + g.s.below(26) as u8) as char);
    g.text();
    base2[at] = (n2.clone().into_bytes(), g.o);
    let b2 = assemble(&base2, body.as_deref());
    let g2 = get(c, &b2).map_err(|e| format!("HARNESS: the comparison message is rejected: {}", show_fail(&e)))?;
    if g1.items.len() != g2.items.len() {
        return Err(clip(format!("{} items, {} with an unknown header in its place: {:?}", g1.items.len(), g2.items.len(), g1.items)));
    }
    for (i, (x, y)) in g1.items.iter().zip(&g2.items).enumerate() {
        if i == pos {
            match x {
                Item::Unknown { name: n, value: v } if n == name && v == value => {}
                x => return Err(clip(format!("the malformed header is returned as {:?}, expected name {:?} and text {:?}", x, name, value))),
            }
            continue;
        }
        if x != y {
            return Err(clip(format!("a malformed {} changes another header: {:?} instead of {:?}", t, x, y)));
        }
    }
    if g1.body != g2.body {
        return Err(clip(format!("a malformed {} changes the body: {:?} instead of {:?}", t, g1.body, g2.body)));
    }
    // the email: the same, except for the field that takes its place
    let (e1, e2) = (get_email(c, &b1, 1), get_email(c, &b2, 1));
    match (e1, e2) {
        (Ok(mut a), Ok(mut b)) => {
            if a.unknown.len() != b.unknown.len() {
                return Err(clip(format!("unknown fields {:?} instead of {:?}", a.unknown, b.unknown)));
            }
            let j = b.unknown.iter().zip(&a.unknown).position(|(y, x)| y.0.t == n2.as_bytes() && x.0 == *name && x.1 == *value);
            match j {
                Some(j) => {
                    a.unknown.remove(j);
                    b.unknown.remove(j);
                }
                None => return Err(clip(format!("unknown fields of the email: {:?}", a.unknown))),
            }
            if a != b {
                return Err(clip(format!("email {:?} instead of {:?}", a, b)));
            }
        }
        (Err(Fail::Err(_)), Err(Fail::Err(_))) => {}
        (a, b) => {
            return Err(clip(format!("email: {} instead of {}", a.map(|_| "accepted".to_string()).unwrap_or_else(|e| show_fail(&e)), b.map(|_| "accepted".to_string()).unwrap_or_else(|e| show_fail(&e)))))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28
pub static C28: PropDef = PropDef {
    id: "C28",
    run: c28,
    labels: &["names and words", "address parts", "identifier parts", "free text", "header names", "body", "trace", "parameters", "with CFWS", "accepted", "unspecified", "entity value", "parts", "decoded text"],
    rule: "messages with every kind of header, valid or with printable edits, with and without comments, folds and escapes; every returned string that the reference model finds contiguous and unescaped must be a reference to that offset; non-trivial: at least three such strings; distinct by message bytes",
};
fn c28(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let cf = *c.s.pick(&[0u32, 0, 10, 30]);
    if cf > 0 {
        c.o.label(8);
    }
    let k = knobs(c, cf, 4);
    let mut mail = Mail::default();
    let tree = f.mime && c.s.pct(35);
    if !tree && c.s.pct(20) {
        mail.trace_block(c.s, k);
        c.o.label(6);
    }
    for _ in 0..if tree { 0 } else { 1 + c.s.size(3, 12) } {
        if c.s.pct(20) {
            mail.unknown(c.s, k);
            continue;
        }
        let t = *c.s.pick(&KNOWN[..]);
        if mail.lines.iter().any(|l| l.lname().eq_ignore_ascii_case(t)) {
            continue;
        }
        mail.known(c.s, k, t);
        if c.s.pct(10) {
            let i = mail.lines.len() - 1;
            let mut v = mail.value(&mail.lines[i]).to_vec();
            tweak(c.s, &mut v);
            set_value(&mut mail, i, &v);
        }
    }
    let b = if tree {
        super::mime::any_mail(c, 2, cf, 4)
    } else {
        mail.need(c.s);
        small_body(&mut mail, c);
        mail.b.clone()
    };
    c.o.input = b.clone();
    let MRes::Ok(m) = model::message(&b, f) else {
        c.o.gray = true;
        c.o.label(10);
        return Ok(());
    };
    let g = match get(c, &b) {
        Ok(g) => g,
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(_) => return Ok(()),
    };
    c.o.label(9);
    let mut n = 0;
    for (w, i) in m.items.iter().zip(&g.items) {
        if w.gray || w.item != *i {
            continue; // other checks tell
        }
        match w.item {
            Item::From(_) | Item::Sender(_) | Item::To(_) | Item::Cc(_) | Item::Bcc(_) | Item::ReplyTo(_) => c.o.label(1),
            Item::MessageId(_) | Item::References(_) | Item::InReplyTo(_) | Item::ContentId(_) => c.o.label(2),
            Item::Subject(_) | Item::Comments(_) | Item::ContentDescription(_) => c.o.label(3),
            Item::Unknown { .. } => c.o.label(4),
            Item::Keywords(_) => c.o.label(0),
            Item::ContentType { .. } | Item::ContentDisposition(_) => c.o.label(7),
            _ => {}
        }
        n += places(&format!("{:?}", i.kind()), &mut |f| w.item.each(f), &mut |f| i.each(f))?;
    }
    if let (Some(at), Some(x)) = (m.body, &g.body) {
        if !x.t.is_empty() {
            c.o.label(5);
            n += 1;
            if x.p != Prov::In(at) {
                return Err(format!("the body is {:?}, expected a reference to offset {}", x.p, at));
            }
        }
    }
    if let (ERes::Ok(w), Ok(g)) = (model::email(&b, f, 3), get_email(c, &b, 3)) {
        for (k, i) in &g.slots {
            if let Some(w) = w.slots.get(k) {
                if w == i {
                    n += places(k, &mut |f| w.each(f), &mut |f| i.each(f))?;
                }
            }
        }
        if w.unknown == g.unknown {
            for (x, y) in w.unknown.iter().zip(&g.unknown) {
                n += places("unknown", &mut |f| { f(&x.0); f(&x.1) }, &mut |f| { f(&y.0); f(&y.1) })?;
            }
        }
        if w.comments == g.comments {
            n += places("comments", &mut |f| w.comments.iter().for_each(f), &mut |f| g.comments.iter().for_each(f))?;
        }
        if w.keywords == g.keywords {
            n += places("keywords", &mut |f| w.keywords.iter().flatten().for_each(f), &mut |f| g.keywords.iter().flatten().for_each(f))?;
        }
        if w.trace == g.trace {
            n += places("trace", &mut |f| w.trace.iter().for_each(|t| t.each(f)), &mut |f| g.trace.iter().for_each(|t| t.each(f)))?;
        }
        if let (Some(a), Some(x)) = (&w.ent, &g.ent) {
            if a.value == x.value && !x.value.t.is_empty() {
                c.o.label(11);
            }
            n += ent_places(a, x, &mut c.o.labels)?;
        }
    }
    c.o.nontrivial = n >= 3;
    Ok(())
}
/// the strings of an entity and of the parts inside it
fn ent_places(a: &Ent, x: &Ent, labels: &mut u64) -> Result<usize, String> {
    let mut n = 0;
    if a.value == x.value && !x.value.t.is_empty() {
        n += places("entity value", &mut |f| f(&a.value), &mut |f| f(&x.value))?;
    }
    if a.ty == x.ty && a.sub == x.sub && a.params == x.params {
        let v = |e: &Ent, f: &mut dyn FnMut(&S)| Item::ContentType { ty: e.ty.clone(), sub: e.sub.clone(), params: e.params.clone() }.each(f);
        n += places("type", &mut |f| v(a, f), &mut |f| v(x, f))?;
    }
    if a.disp == x.disp {
        n += places("disposition", &mut |f| a.disp.iter().for_each(|d| d.each(f)), &mut |f| x.disp.iter().for_each(|d| d.each(f)))?;
    }
    if a.desc == x.desc {
        n += places("description", &mut |f| a.desc.iter().for_each(f), &mut |f| x.desc.iter().for_each(f))?;
    }
    if a.id == x.id {
        n += places("id", &mut |f| a.id.iter().for_each(|i| { f(&i.0); f(&i.1) }), &mut |f| x.id.iter().for_each(|i| { f(&i.0); f(&i.1) }))?;
    }
    if a.extra == x.extra {
        n += places("part field", &mut |f| a.extra.iter().for_each(|i| { f(&i.0); f(&i.1) }), &mut |f| x.extra.iter().for_each(|i| { f(&i.0); f(&i.1) }))?;
    }
    match (a.node.as_deref(), x.node.as_deref()) {
        (Some(Node::Multi { parts: p, .. }), Some(Node::Multi { parts: q, .. })) if p.len() == q.len() => {
            *labels |= 1 << 12;
            for (p, q) in p.iter().zip(q) {
                n += ent_places(p, q, labels)?;
            }
        }
        (Some(Node::Text { value: p, .. }), Some(Node::Text { value: q, .. })) if p == q => {
            *labels |= 1 << 13;
            n += places("text", &mut |f| f(p), &mut |f| f(q))?;
        }
        _ => {}
    }
    Ok(n)
}
type Visit<'a> = &'a mut dyn FnMut(&mut dyn FnMut(&S));
/// how many strings were required to be in place
fn places(what: &str, want: Visit, got: Visit) -> Result<usize, String> {
    let mut w: Vec<S> = Vec::new();
    want(&mut |s| w.push(s.clone()));
    let mut g: Vec<S> = Vec::new();
    got(&mut |s| g.push(s.clone()));
    let mut n = 0;
    for (x, y) in w.iter().zip(&g) {
        if let Prov::In(a) = x.p {
            if x.t.is_empty() {
                continue;
            }
            n += 1;
            if y.p != Prov::In(a) {
                return Err(clip(format!("{}: {:?} is {:?}, expected a reference to offset {}", what, y, y.p, a)));
            }
        }
    }
    Ok(n)
}
