//! Entities: multipart structure, charsets, transfer encodings, ownership.
use super::codec::{b64_lines, qp_random};
use super::*;
use crate::tape::Src;

/// One entity under construction.
#[derive(Clone, Debug)]
pub struct Tree {
    /// (name, value) of the MIME headers, in order
    pub heads: Vec<(Vec<u8>, Vec<u8>)>,
    pub has_body: bool,
    /// transfer-encoded
    pub body: Vec<u8>,
    /// decoded
    pub value: Vec<u8>,
    pub parts: Option<Vec<Tree>>,
    /// the text, for a text leaf in a known charset
    pub text: Option<Vec<u8>>,
    /// nothing in it could be read in another way
    pub sure: bool,
    pub depth: usize,
}
impl Tree {
    pub fn part_bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for (n, v) in &self.heads {
            o.extend_from_slice(n);
            o.push(b':');
            o.extend_from_slice(v);
            o.extend_from_slice(b"\r\n");
        }
        if self.has_body {
            o.extend_from_slice(b"\r\n");
            o.extend_from_slice(&self.body);
        }
        o
    }
}
#[derive(Clone, Copy)]
pub struct TOpts {
    /// percent: entity is a multipart (while depth lasts)
    pub multi: u32,
    /// percent: some transfer encoding is given
    pub cte: u32,
    /// percent: lines that resemble boundaries
    pub near: u32,
    /// percent for each of the other headers
    pub heads: u32,
    /// percent: text leaves carry a charset parameter
    pub charset: u32,
    pub leaf: u32,
    pub k: Knobs,
    pub cd: bool,
}
impl TOpts {
    pub fn new(k: Knobs, cd: bool) -> TOpts {
        TOpts { multi: 45, cte: 35, near: 30, heads: 15, charset: 60, leaf: 60, k, cd }
    }
}
fn boundary(s: &mut Src, stack: &[Vec<u8>]) -> Vec<u8> {
    const B: &[u8] = b"abcXYZ0189'()+_,-./:=?";
    if !stack.is_empty() && s.pct(25) {
        // resembles the enclosing one
        let mut b = stack[stack.len() - 1].clone();
        match s.below(4) {
            0 => b.push(*s.pick(B)),
            1 => {
                b.pop();
            }
            2 => b.extend_from_slice(b"--"),
            _ => b.insert(0, b'-'),
        }
        while b.last() == Some(&b' ') {
            b.pop();
        }
        if !b.is_empty() {
            return b;
        }
    }
    let mut v = Vec::new();
    // nobody should write these, but they delimit all the same
    let odd = s.pct(10);
    let n = match odd {
        true if s.pct(30) => s.number(60, 300),
        false if s.pct(10) => s.number(60, 70),
        _ => 1 + s.size(4, 30) as u32,
    };
    if odd && s.pct(60) {
        for _ in 0..n {
            v.push(if s.pct(15) { *s.pick(b" \t\"\\;") } else { s.range(33, 126) as u8 });
        }
        if s.pct(30) {
            v.push(b' ');
        }
        return v;
    }
    for i in 0..n {
        if i + 1 < n && i > 0 && s.pct(4) {
            v.push(b' ');
        } else {
            v.push(*s.pick(B));
        }
    }
    v
}
fn near_line(s: &mut Src, bd: &[u8]) -> Vec<u8> {
    let mut v = b"--".to_vec();
    v.extend_from_slice(bd);
    match s.weighted(&[3, 3, 2, 2, 2, 2, 2, 1, 1, 1]) {
        0 => v.push(*s.pick(b"x-=.0")),
        1 => {
            v.pop();
        }
        2 => {
            v.remove(0);
        }
        3 => v.extend_from_slice(b"--x"),
        4 => v.insert(0, *s.pick(b" x-\t>")),
        5 => v.push(b'-'),
        6 => {
            let i = s.below(v.len() as u32) as usize;
            v[i] = if v[i].is_ascii_alphabetic() { v[i] ^ 32 } else { b'z' };
        }
        7 => v = bd.to_vec(),
        8 => v = b"--".to_vec(),
        _ => v.extend_from_slice(b"---"),
    }
    v
}
/// lines of text, some of which resemble delimiters
fn text_lines(s: &mut Src, stack: &[Vec<u8>], near: u32, mean: u32) -> Vec<u8> {
    let mut o = Vec::new();
    let n = s.count(mean, 30, 300);
    for i in 0..n {
        if i > 0 {
            match s.weighted(&[12, 1, 1, 1]) {
                0 => o.extend_from_slice(b"\r\n"),
                1 => o.push(b'\n'),
                2 => o.push(b'\r'),
                _ => o.extend_from_slice(b"\r\n\r\n"),
            }
        }
        if !stack.is_empty() && s.pct(near) {
            let b = stack[s.below(stack.len() as u32) as usize].clone();
            o.extend(near_line(s, &b));
        } else {
            match s.weighted(&[4, 2, 1, 1]) {
                0 => {
                    let mut g = Gen::new(s, Knobs::plain());
                    let v = g.vchars(6, 60);
                    o.extend(v);
                }
                1 => {}
                2 => o.extend_from_slice(b"Content-Type: text/plain"),
                _ => {
                    for _ in 0..s.size(6, 40) {
                        o.push(s.below(256) as u8);
                    }
                }
            }
        }
    }
    if s.pct(60) {
        o.extend_from_slice(b"\r\n");
    }
    if s.pct(6) {
        crate::gen::affix(s, &mut o, false);
    }
    o
}
fn other_heads(c: &mut Ctx, t: &TOpts, heads: &mut Vec<(Vec<u8>, Vec<u8>)>, top: bool) {
    let mut names: Vec<&str> = Vec::new();
    if c.s.pct(t.heads) {
        names.push("Content-Description");
    }
    if c.s.pct(t.heads) {
        names.push("Content-ID");
    }
    if c.s.pct(t.heads) {
        names.push("Content-Disposition");
    }
    for n in names {
        let mut g = Gen::new(c.s, t.k);
        let shown = g.case_mix(n.as_bytes());
        g.put(b" ");
        let l = n.to_ascii_lowercase();
        g.value(&l);
        let v = g.o;
        heads.push((shown, v));
    }
    if !top {
        for _ in 0..c.s.count(1, 5, 300) {
            if !c.s.pct(t.heads * 2) {
                continue;
            }
            let mut g = Gen::new(c.s, Knobs { ew: 10, ..t.k });
            let old = if heads.is_empty() || !g.s.pct(10) { None } else { Some(g.s.pick(&heads[..]).0.clone()) };
            let n = if let Some(o) = old { g.case_mix(&o) } else { match g.s.weighted(&[4, 9, 3]) {
                0 => b"Subject".to_vec(),
                1 => g.field_name(),
                _ => g.s.pick(&["Received", "Return-Path", "Date", "From", "To", "Cc", "Bcc", "Sender", "Reply-To", "Message-ID", "In-Reply-To", "References", "Keywords", "Comments", "MIME-Version", "Resent-Date", "Resent-From", "Resent-To"][..]).as_bytes().to_vec(),
            } };
            if g.s.pct(20) {
                g.foreign();
            } else {
                g.text();
            }
            let v = g.o;
            let l = n.to_ascii_lowercase();
            if l.starts_with(b"content-") {
                continue;
            }
            heads.push((n, v));
        }
    }
    for i in (1..heads.len()).rev() {
        let j = c.s.below(i as u32 + 1) as usize;
        heads.swap(i, j);
    }
}
/// applies a random transfer encoding
fn encode(c: &mut Ctx, t: &TOpts, value: &[u8], heads: &mut Vec<(Vec<u8>, Vec<u8>)>) -> Vec<u8> {
    if !c.s.pct(t.cte) {
        return value.to_vec();
    }
    let (n, body) = match c.s.weighted(&[2, 3, 3]) {
        0 => (*c.s.pick(&["7bit", "8bit", "binary"]), value.to_vec()),
        1 => ("base64", b64_lines(c.s, value, true)),
        _ => ("quoted-printable", qp_random(c.s, value)),
    };
    let mut g = Gen::new(c.s, t.k);
    let shown = g.case_mix(b"Content-Transfer-Encoding");
    g.cf();
    g.put(b" ");
    let v = g.case_mix(n.as_bytes());
    g.put(&v);
    g.cf();
    let o = g.o;
    heads.push((shown, o));
    body
}
pub fn entity(c: &mut Ctx, t: &TOpts, depth: usize, stack: &mut Vec<Vec<u8>>, top: bool) -> Tree {
    let mut heads = Vec::new();
    if depth > 0 && c.s.pct(if top { t.multi.max(70) } else { t.multi }) && !c.s.over(20_000) {
        let mut bd = boundary(c.s, stack);
        if c.s.pct(3) {
            bd.extend(c.s.pick(&["\u{e9}", "\u{3000}", "\u{1f600}\u{feff}", "\u{0}", "\r", "\n", "\u{7f}"]).bytes());
        }
        let mut g = Gen::new(c.s, t.k);
        let shown = g.case_mix(b"Content-Type");
        g.put(b" ");
        g.cf();
        let m = g.case_mix(b"multipart");
        g.put(&m);
        g.put(b"/");
        let sub = *g.s.pick(&["mixed", "alternative", "related", "digest", "X-y", "signed"]);
        g.put(sub.as_bytes());
        if g.s.pct(25) {
            g.params(&["boundary"], 0);
        }
        g.put_boundary(&bd);
        if g.s.pct(15) {
            // a different name, so it must not be taken for the boundary
            g.put_param(b"boundary2", b"zzz");
        }
        g.cf();
        let v = g.o;
        heads.push((shown, v));
        stack.push(bd.clone());
        let n = 1 + if c.s.pct(3) { c.s.size(10, 60) } else { c.s.count(1, 5, 300) };
        let mut parts = Vec::new();
        for _ in 0..n {
            parts.push(entity(c, t, depth - 1, stack, false));
        }
        let mut value = Vec::new();
        if c.s.pct(35) {
            value.extend(text_lines(c.s, stack, t.near, 2));
            if !value.is_empty() && !value.ends_with(b"\r\n") {
                value.extend_from_slice(b"\r\n");
            }
        }
        let mut ranges = Vec::new();
        for p in &parts {
            value.extend_from_slice(b"--");
            value.extend_from_slice(&bd);
            value.extend_from_slice(b"\r\n");
            let a = value.len();
            value.extend(p.part_bytes());
            ranges.push((a, value.len()));
            value.extend_from_slice(b"\r\n");
        }
        value.extend_from_slice(b"--");
        value.extend_from_slice(&bd);
        value.extend_from_slice(b"--");
        match c.s.weighted(&[4, 3, 3]) {
            0 => {}
            1 => value.extend_from_slice(b"\r\n"),
            _ => {
                value.extend_from_slice(b"\r\n");
                value.extend(text_lines(c.s, stack, t.near, 2));
            }
        }
        stack.pop();
        let mut sure = parts.iter().all(|p| p.sure);
        match model::multipart(&S::any(value.clone()), &bd) {
            model::MpRes::Ok(r) if r == ranges => {}
            _ => sure = false,
        }
        let body = encode(c, t, &value, &mut heads);
        other_heads(c, t, &mut heads, top);
        let d = 1 + parts.iter().map(|p| p.depth).max().unwrap_or(0);
        return Tree { heads, has_body: true, body, value, parts: Some(parts), text: None, sure, depth: d };
    }
    // a leaf
    let mut text = None;
    let mut value;
    let kind = c.s.weighted(&[4, 4, 2]);
    if kind == 0 {
        // text in a declared charset
        let mut g = Gen::new(c.s, t.k);
        let cs = g.charset();
        let max = if g.s.pct(10) { 400 } else { 60 };
        let (mut b, x) = g.charset_text(cs, max, |_| true);
        let mut x = x.into_bytes();
        g.s.stretch_whole(&mut b, &mut x, 140_000);
        let shown = g.case_mix(b"Content-Type");
        g.put(b" ");
        let m = g.case_mix(b"text");
        g.put(&m);
        g.put(b"/");
        let sub = *g.s.pick(&["plain", "html", "X-other", "calendar"]);
        g.put(sub.as_bytes());
        if g.s.pct(20) {
            g.params(&["charset"], 0);
        }
        let m = g.case_mix(cs.as_bytes());
        g.put_param(b"charset", &m);
        g.cf();
        let v = g.o;
        heads.push((shown, v));
        value = b;
        text = Some(x);
    } else {
        value = text_lines(c.s, stack, t.near, t.leaf / 20);
        if kind == 2 {
            let mut g = Gen::new(c.s, t.k);
            let shown = g.case_mix(b"Content-Type");
            g.put(b" ");
            if g.s.pct(50) {
                let v = *g.s.pick(&["application/octet-stream", "image/png", "message/rfc822", "text/html", "x-foo/bar", "texts/plain", "tex/plain", "multiparts/mixed; boundary=a"]);
                g.put(v.as_bytes());
            } else {
                g.content_type();
            }
            let v = g.o;
            if v.windows(5).any(|w| w.eq_ignore_ascii_case(b"multi")) {
                text = None;
            }
            heads.push((shown, v));
        }
    }
    let mut body = encode(c, t, &value, &mut heads);
    let mut has_body = true;
    if value.is_empty() && body.is_empty() && !top && c.s.pct(40) {
        has_body = false;
    }
    other_heads(c, t, &mut heads, top);
    if !has_body {
        body.clear();
        value.clear();
    }
    Tree { heads, has_body, body, value, parts: None, text, sure: true, depth: 0 }
}
/// a message around the entity
pub fn mail_of(c: &mut Ctx, t: &Tree, k: Knobs, n: u32) -> Vec<u8> {
    let mut mail = Mail::default();
    if n > 0 && c.s.pct(15) {
        mail.trace_block(c.s, k);
    }
    noise(&mut mail, c, k, n, &["Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description", "Content-Disposition"]);
    for (a, v) in &t.heads {
        mail.push(a, v, None);
    }
    mail.need(c.s);
    if !mail.lines.iter().any(|l| l.lname() == "sender") {
        mail.push(b"Sender", b" s@b.c", None);
    }
    if t.has_body {
        mail.end_headers();
        mail.b.extend_from_slice(&t.body);
    }
    mail.b
}
/// any mail: headers of every kind and an entity tree
pub fn any_mail(c: &mut Ctx, n: u32, cf: u32, ew: u32) -> Vec<u8> {
    let k = knobs(c, cf, ew);
    let f = c.sut.feats();
    let mut t = TOpts::new(k, f.cd);
    t.heads = 25;
    if f.mime && !c.s.pct(25) {
        let d = if c.s.pct(5) { 5 } else { 2 };
        let tree = entity(c, &t, d, &mut Vec::new(), true);
        mail_of(c, &tree, k, n)
    } else {
        let mut mail = Mail::default();
        while c.s.pct(20) {
            mail.trace_block(c.s, k);
        }
        noise(&mut mail, c, k, n, &[]);
        if !c.s.pct(30) {
            mail.need(c.s);
        }
        small_body(&mut mail, c);
        mail.b
    }
}
/// the model has to agree with the construction
fn same_tree(t: &Tree, e: &Ent) -> Result<(), String> {
    if !t.sure {
        return Ok(());
    }
    if e.value.t != t.value {
        return Err(clip(format!("HARNESS: value {:?} built as {:?}", e.value, esc(&t.value))));
    }
    match (&t.parts, e.node.as_deref()) {
        (Some(p), Some(Node::Multi { parts, .. })) => {
            if p.len() != parts.len() {
                return Err("HARNESS: number of parts".into());
            }
            for (a, b) in p.iter().zip(parts) {
                same_tree(a, b)?;
            }
            Ok(())
        }
        (Some(_), Some(x)) => Err(clip(format!("HARNESS: a multipart is read as {:?}", x))),
        (None, Some(Node::Text { value, .. })) => match &t.text {
            Some(x) if *x != value.t => Err(clip(format!("HARNESS: text {:?} built as {:?}", value, esc(x)))),
            _ => Ok(()),
        },
        (None, Some(x)) if t.text.is_some() => Err(clip(format!("HARNESS: a text is read as {:?}", x))),
        _ => Ok(()),
    }
}
/// compares the decoded email with the model
fn tree_check(c: &mut Ctx, b: &[u8], tree: Option<&Tree>, depth: usize, l_gray: u32) -> Result<Option<Ent>, String> {
    c.o.input = b.to_vec();
    let f = c.sut.feats();
    let want = model::email(b, f, depth);
    match &want {
        ERes::Gray => {
            c.o.gray = true;
            c.o.label(l_gray);
            return Ok(None);
        }
        ERes::Ok(w) => {
            if let (Some(t), Some(e)) = (tree, &w.ent) {
                same_tree(t, e)?;
            }
        }
        _ => {}
    }
    let sc = EScope { ent: true, errors: true, ..EScope::slots(&|_| false) };
    check_email(c, b, depth, &sc)?;
    Ok(match want {
        ERes::Ok(w) => w.ent,
        _ => None,
    })
}
fn count(e: &Ent) -> (usize, usize, usize) {
    // (entities, depth, errors)
    match e.node.as_deref() {
        Some(Node::Multi { parts, .. }) => {
            let mut n = 1;
            let mut d = 0;
            let mut x = 0;
            for p in parts {
                let r = count(p);
                n += r.0;
                d = d.max(r.1);
                x += r.2;
            }
            (n, d + 1, x)
        }
        Some(Node::Err) => (1, 0, 1),
        _ => (1, 0, 0),
    }
}

// ---------------------------------------------------------------- C20
pub static C20: PropDef = PropDef {
    id: "C20",
    run: c20,
    labels: &["as built", "closing boundary removed", "boundary parameter removed", "body edited", "decoded", "error", "unspecified", "nested", "deep", "many parts", "content collides with a boundary", "lines resembling boundaries", "transfer-encoded container"],
    rule: "trees of entities (up to 6 levels, up to 60 parts), with preamble, epilogue, and lines resembling the boundaries of every enclosing level, boundaries of the usual characters, long ones, any printable character or any byte, as built, without closing boundary, without boundary parameter, or with an edited body; non-trivial: the top entity is a multipart; distinct by message bytes",
};
fn c20(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let mode = c.s.weighted(&[60, 10, 5, 25]);
    c.o.label(mode as u32);
    let mut t = TOpts::new(knobs(c, 5, 0), f.cd);
    t.multi = 40;
    t.near = 45;
    t.heads = 8;
    t.cte = 12;
    let depth = 1 + if c.s.pct(6) { 5 } else { c.s.size(1, 3) };
    let mut tree = entity(c, &t, depth, &mut Vec::new(), true);
    if mode == 1 && tree.parts.is_some() {
        // cut somewhere before the end of the closing boundary
        let n = tree.body.len() as u32;
        let keep = n - c.s.below(n.min(60)) - 1;
        tree.body.truncate(keep as usize);
        tree.sure = false;
    }
    if mode == 2 {
        for h in tree.heads.iter_mut() {
            if h.0.eq_ignore_ascii_case(b"content-type") {
                h.1 = b" multipart/mixed".to_vec();
                if c.s.pct(50) {
                    h.1.extend_from_slice(b"; boundry=a");
                }
            }
        }
        tree.sure = false;
    }
    if mode == 3 {
        mutate(c.s, &mut tree.body);
        tree.sure = false;
    }
    if !tree.sure && mode == 0 {
        c.o.label(10);
    }
    let b = mail_of(c, &tree, knobs(c, 0, 0), 0);
    c.o.nontrivial = tree.parts.is_some();
    if tree.depth > 1 {
        c.o.label(7);
    }
    if tree.depth > 3 {
        c.o.label(8);
    }
    if tree.parts.as_ref().map(|p| p.len() > 9).unwrap_or(false) {
        c.o.label(9);
    }
    if tree.value != tree.body {
        c.o.label(12);
    }
    if let Some(e) = tree_check(c, &b, Some(&tree).filter(|_| mode == 0), depth + 1, 6)? {
        let r = count(&e);
        c.o.label(if r.2 > 0 { 5 } else { 4 });
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
pub static C21: PropDef = PropDef {
    id: "C21",
    run: c21,
    labels: &[
        "utf-8", "us-ascii", "iso-8859", "iso-6937", "gb2312", "unknown charset", "no charset", "not text", "as built", "edited", "unspecified", "text", "unknown", "error", "in a part",
        "no Content-Type", "transfer-encoded",
    ],
    rule: "text entities over 19 charsets (all defined code points), with unknown and missing charsets and other types, as built or with edited bytes, at top level and inside a multipart, in every transfer encoding; non-trivial: at least one byte of content; distinct by message bytes",
};
fn c21(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let k = knobs(c, 5, 0);
    let t = TOpts { cte: 35, heads: 0, ..TOpts::new(k, f.cd) };
    let mut heads: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let kind = c.s.weighted(&[12, 2, 2, 2, 2]);
    let edit = c.s.pct(30);
    let mut g = Gen::new(c.s, k);
    let cs = if g.s.pct(30) { "utf-8" } else { *g.s.pick(&CHARSETS[..]) };
    let max = if g.s.pct(8) { 2000 } else { 80 };
    let mean_more = g.s.pct(20);
    let (mut value, x) = {
        let (mut b, mut x) = g.charset_text(cs, max, |_| true);
        if mean_more {
            for _ in 0..10 {
                let (b2, x2) = g.charset_text(cs, 40, |_| true);
                b.extend(b2);
                x.push_str(&x2);
            }
        }
        let mut x = x.into_bytes();
        g.s.stretch_whole(&mut b, &mut x, 140_000);
        (b, x)
    };
    let mut text = None;
    let shown = g.case_mix(b"Content-Type");
    g.put(b" ");
    match kind {
        0 => {
            let m = g.case_mix(b"text");
            g.put(&m);
            let sub = *g.s.pick(&["/plain", "/html", "/X-other"]);
            g.put(sub.as_bytes());
            if g.s.pct(15) {
                g.params(&["charset"], 0);
            }
            let m = g.case_mix(cs.as_bytes());
            g.put_param(b"charset", &m);
            text = Some(x.clone());
            c.o.label(match cs {
                "utf-8" => 0,
                "us-ascii" => 1,
                "iso-6937" => 3,
                "gb2312" => 4,
                _ => 2,
            });
        }
        1 => {
            // unknown, or nearly known
            g.put(b"text/plain");
            let n = match g.s.weighted(&[2, 3, 3, 2]) {
                0 => g.token_bytes(),
                2 => {
                    // a known one with something around it
                    let cs = *g.s.pick(&CHARSETS[..]);
                    let t = *g.s.pick(&[" ", "\t", "  ", ".", "\"", "'", ",", ";", "-", "_", ":", "cs", "x-", "*", "\\", "()", "\\\"", "=", "//TRANSLIT", "_"]);
                    let mut v = cs.as_bytes().to_vec();
                    match g.s.below(3) {
                        0 => v.extend_from_slice(t.as_bytes()),
                        1 => v = [t.as_bytes(), &v].concat(),
                        _ => v = [t.as_bytes(), &v, t.as_bytes()].concat(),
                    }
                    g.case_mix(&v)
                }
                3 => {
                    // names that others know
                    let t = *g.s.pick(&[
                        "utf8", "utf_8", "utf 8", "unicode-1-1-utf-8", "utf-7", "utf-16", "utf-32", "ascii", "us_ascii", "ansi_x3.4-1968", "iso646-us", "latin1", "latin-1", "l1", "iso8859-1", "iso_8859-1", "iso-8859_1", "iso-88591", "8859-1", "iso-8859-12",
                        "iso-8859-17", "iso-8859-0", "iso-8859-01", "iso-8859", "iso-8859-1-e", "iso-8859-8-i", "iso-8859-6-e", "windows-1252", "windows-1251", "cp1252", "cp437", "koi8-r", "koi8-u", "gbk", "gb18030", "gb_2312-80", "gb2312-80", "euc-cn", "gb-2312",
                        "iso6937", "iso-6937-2", "iso_6937", "t.61", "big5", "shift_jis", "euc-jp", "iso-2022-jp", "macintosh", "x-user-defined", "binary", "unknown-8bit", "default", "",
                    ]);
                    t.as_bytes().to_vec()
                }
                _ => {
                    let cs = *g.s.pick(&CHARSETS[..]);
                    let mut v = cs.as_bytes().to_vec();
                    match g.s.below(3) {
                        0 => v.push(*g.s.pick(b"0159-x")),
                        1 => {
                            v.pop();
                        }
                        _ => {
                            let i = g.s.below(v.len() as u32) as usize;
                            v[i] = *g.s.pick(b"x_729-");
                        }
                    }
                    v
                }
            };
            g.put_param(b"charset", &n);
            c.o.label(5);
        }
        2 => {
            g.put(b"text/plain");
            if g.s.pct(50) {
                g.params(&["charset"], 0);
            }
            c.o.label(6);
        }
        3 => {
            let m = *g.s.pick(&["application", "image", "audio", "video", "message", "texts", "tex", "x-text", "multipart2"]);
            g.put(m.as_bytes());
            g.put(b"/plain");
            let m = g.case_mix(cs.as_bytes());
            g.put_param(b"charset", &m);
            c.o.label(7);
        }
        _ => {
            c.o.label(15);
        }
    }
    let v = g.o;
    if kind != 4 {
        heads.push((shown, v));
    }
    if edit {
        let hot = [0x80u8, 0xc0, 0xc3, 0xe2, 0xed, 0xa0, 0xf0, 0xf4, 0xf5, 0xff, 0x7f, 0xc1, 0xc2];
        for _ in 0..1 + c.s.size(1, 4) {
            let i = c.s.below(value.len() as u32 + 1) as usize;
            match c.s.weighted(&[3, 3, 2]) {
                0 => value.insert(i, *c.s.pick(&hot)),
                1 if i < value.len() => value[i] = c.s.below(256) as u8,
                _ if i < value.len() => {
                    value.remove(i);
                }
                _ => {}
            }
        }
        text = None;
        c.o.label(9);
    } else {
        c.o.label(8);
    }
    let body = encode(c, &t, &value, &mut heads);
    if body != value {
        c.o.label(16);
    }
    let leaf = Tree { heads, has_body: true, body, value: value.clone(), parts: None, text, sure: !edit || kind != 0, depth: 0 };
    c.o.nontrivial = !value.is_empty();
    let inside = c.s.pct(35);
    let tree = if inside {
        c.o.label(14);
        let mut v = b"--q7Zq\r\n".to_vec();
        v.extend(leaf.part_bytes());
        v.extend_from_slice(b"\r\n--q7Zq--");
        Tree { heads: vec![(b"Content-Type".to_vec(), b" multipart/mixed; boundary=q7Zq".to_vec())], has_body: true, body: v.clone(), value: v, parts: Some(vec![leaf.clone()]), text: None, sure: leaf.sure, depth: 1 }
    } else {
        leaf
    };
    let b = mail_of(c, &tree, Knobs::plain(), 0);
    if let Some(e) = tree_check(c, &b, Some(&tree), 2, 10)? {
        let n = match e.node.as_deref() {
            Some(Node::Multi { parts, .. }) => parts.first().and_then(|p| p.node.clone()),
            _ => e.node.clone(),
        };
        match n.as_deref() {
            Some(Node::Text { .. }) => c.o.label(11),
            Some(Node::Err) => c.o.label(13),
            _ => c.o.label(12),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
pub static C22: PropDef = PropDef {
    id: "C22",
    run: c22,
    labels: &["identity", "base64", "quoted-printable", "unknown encoding", "as built", "headers edited", "body edited", "accepted", "error", "unspecified", "with parts", "with description, id or disposition", "no Content-Type"],
    rule: "entities (top level and parts) with every transfer encoding, unknown encodings, and random sets of content headers, as built or edited; non-trivial: the entity has a header of its own or a body; distinct by message bytes",
};
fn c22(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let cf = *c.s.pick(&[0u32, 0, 10]);
    let mut t = TOpts::new(knobs(c, cf, 8), f.cd);
    t.cte = 70;
    t.heads = 45;
    t.multi = 15;
    t.near = 5;
    let depth = if c.s.pct(50) { 1 } else { 0 };
    let mut tree = entity(c, &t, depth, &mut Vec::new(), true);
    let mode = c.s.weighted(&[60, 15, 12, 13]);
    c.o.label([4, 5, 6, 3][mode]);
    match mode {
        1 => {
            if !tree.heads.is_empty() {
                let i = c.s.below(tree.heads.len() as u32) as usize;
                let mut v = tree.heads[i].1.clone();
                tweak(c.s, &mut v);
                tree.heads[i].1 = v;
            }
            tree.sure = false;
        }
        2 => {
            mutate(c.s, &mut tree.body);
            tree.sure = false;
        }
        3 => {
            let mut g = Gen::new(c.s, Knobs::plain());
            let v = match g.s.below(3) {
                0 => g.token_bytes(),
                1 => {
                    let t = *g.s.pick(model::CTES);
                    let mut v = t.as_bytes().to_vec();
                    match g.s.below(3) {
                        0 => v.push(*g.s.pick(b"x-s4")),
                        1 => {
                            v.pop();
                        }
                        _ => {
                            let i = g.s.below(v.len() as u32) as usize;
                            v[i] = b'x';
                        }
                    }
                    v
                }
                _ => b"x-uuencode".to_vec(),
            };
            let mut w = b" ".to_vec();
            w.extend(v);
            // at the top or in a part
            let inner = tree.parts.is_some() && c.s.pct(50);
            if inner {
                let bd = b"u9u";
                let mut body = b"--u9u\r\nContent-Transfer-Encoding:".to_vec();
                body.extend_from_slice(&w);
                body.extend_from_slice(b"\r\n\r\nzzzz\r\n--u9u--\r\n");
                let _ = bd;
                tree = Tree { heads: vec![(b"Content-Type".to_vec(), b" multipart/mixed; boundary=u9u".to_vec())], has_body: true, body: body.clone(), value: body, parts: None, text: None, sure: false, depth: 1 };
            } else {
                tree.heads.retain(|h| !h.0.eq_ignore_ascii_case(b"content-transfer-encoding"));
                tree.heads.push((b"Content-Transfer-Encoding".to_vec(), w));
                tree.sure = false;
            }
        }
        _ => {}
    }
    for h in &tree.heads {
        if h.0.eq_ignore_ascii_case(b"content-transfer-encoding") {
            let l = String::from_utf8_lossy(&h.1).to_ascii_lowercase();
            c.o.label(if l.contains("base64") {
                1
            } else if l.contains("quoted") {
                2
            } else {
                0
            });
        } else if !h.0.eq_ignore_ascii_case(b"content-type") {
            c.o.label(11);
        }
    }
    if !tree.heads.iter().any(|h| h.0.eq_ignore_ascii_case(b"content-type")) {
        c.o.label(12);
    }
    if tree.parts.is_some() {
        c.o.label(10);
    }
    let b = mail_of(c, &tree, Knobs::plain(), 1);
    c.o.nontrivial = !tree.heads.is_empty() || !tree.body.is_empty();
    let e = tree_check(c, &b, Some(&tree), 2, 9)?;
    if !c.o.gray {
        c.o.label(if e.is_some() { 7 } else { 8 });
    }
    // the same as one part, borrowed and owned
    let p = tree.part_bytes();
    let want = model::part(&S { t: p.clone(), p: Prov::In(0) }, f, 1);
    for owned in [false, true] {
        let mut au = Audit::default();
        let got = c.sut.raw_entity(&p, owned, 1, &mut au);
        match (&want, got) {
            (_, Err(Fail::Err(ErrV::Other(m)))) if m == "unsupported" => {}
            (model::PartRes::Gray, _) => {}
            (model::PartRes::Ok(w), Ok(g)) => ent_diff(if owned { "owned part" } else { "borrowed part" }, &g, w)?,
            (model::PartRes::Ok(w), Err(e)) => return Err(clip(format!("part rejected with {}: expected {:?}", show_fail(&e), w))),
            (model::PartRes::Err, Ok(g)) => return Err(clip(format!("part accepted, but an error is due: {:?}", g))),
            (model::PartRes::Err, Err(Fail::Err(_))) => {}
            (model::PartRes::Err, Err(e)) => return Err(show_fail(&e)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25
pub static C25: PropDef = PropDef {
    id: "C25",
    run: c25,
    labels: &["as built", "edited", "values taken", "entity cloned", "rejected", "with parts", "part borrowed and owned", "owned strings", "disposition with dates"],
    rule: "messages with Content-Type, Content-Transfer-Encoding and Content-Disposition headers and entity trees, as built or edited; every convertible value is turned into its owned form, the buffer is then overwritten and freed, and what remains is compared; non-trivial: at least one value was converted; distinct by message bytes",
};
fn c25(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let cf = *c.s.pick(&[0u32, 0, 10]);
    let mut t = TOpts::new(knobs(c, cf, 6), f.cd);
    t.heads = 50;
    t.cte = 50;
    t.multi = 30;
    let depth = c.s.size(1, 3);
    let mut tree = entity(c, &t, depth, &mut Vec::new(), true);
    let edit = c.s.pct(30);
    if edit && !tree.heads.is_empty() {
        let i = c.s.below(tree.heads.len() as u32) as usize;
        let mut v = tree.heads[i].1.clone();
        tweak(c.s, &mut v);
        tree.heads[i].1 = v;
    }
    c.o.label(edit as u32);
    let b = mail_of(c, &tree, knobs(c, 0, 0), 1);
    c.o.input = b.clone();
    let mut n = 0;
    match c.sut.owned_items(&b) {
        Ok((before, after)) => {
            n += before.len();
            if !before.is_empty() {
                c.o.label(2);
            }
            for (x, y) in before.iter().zip(&after) {
                if x != y {
                    return Err(clip(format!("{:?} became {:?}", x, y)));
                }
                if let Item::ContentDisposition(d) = x {
                    if d.creation.is_some() || d.read.is_some() || d.modification.is_some() {
                        c.o.label(8);
                    }
                }
                let mut bad = None;
                y.each(&mut |s| {
                    if !matches!(s.p, Prov::Owned | Prov::Any) {
                        bad = Some(s.clone());
                    }
                });
                if let Some(s) = bad {
                    return Err(format!("the owned value still refers to {:?} ({:?})", s, s.p));
                }
                c.o.label(7);
            }
            if before.len() != after.len() {
                return Err("values were lost".into());
            }
        }
        Err(Fail::Err(_)) => c.o.label(4),
        Err(e) => return Err(show_fail(&e)),
    }
    let dep = tree.depth + 1;
    match c.sut.cloned_entity(&b, dep) {
        Ok((x, y, eq)) => {
            n += 1;
            c.o.label(3);
            ent_diff("clone", &y, &x)?;
            if !eq {
                return Err("the clone does not compare equal".into());
            }
        }
        Err(Fail::Err(_)) => c.o.label(4),
        Err(e) => return Err(show_fail(&e)),
    }
    if tree.parts.is_some() {
        c.o.label(5);
    }
    // decoding from a borrowed or an owned buffer
    let p = if let (Some(parts), true) = (&tree.parts, c.s.pct(50)) { parts[0].part_bytes() } else { tree.part_bytes() };
    let mut au = Audit::default();
    let x = c.sut.raw_entity(&p, false, dep, &mut au);
    let y = c.sut.raw_entity(&p, true, dep, &mut au);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            n += 1;
            c.o.label(6);
            ent_diff("from an owned buffer", &y, &x)?;
        }
        (Err(Fail::Err(_)), Err(Fail::Err(_))) => {}
        (Err(Fail::Panic(m)), _) | (_, Err(Fail::Panic(m))) => return Err(format!("panic: {}", m)),
        (x, y) => return Err(clip(format!("borrowed: {:?}, owned: {:?}", x.map_err(|e| show_fail(&e)), y.map_err(|e| show_fail(&e))))),
    }
    c.o.nontrivial = n > 0;
    Ok(())
}
