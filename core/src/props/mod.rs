//! One executable check per property, over generated inputs.
use crate::engine::Ctx;
use crate::gen::*;
use crate::model::{self, ERes, MMsg, MRes};
use crate::types::*;

pub mod codec;
pub mod conc;
pub mod effort;
pub mod fixpoint;
pub mod headers;
pub mod meta;
pub mod mime;
pub mod relate;
pub mod robust;

pub struct PropDef {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Result<(), String>,
    pub labels: &'static [&'static str],
    pub rule: &'static str,
}
pub static ALL: &[&PropDef] = &[
    &robust::C01,
    &robust::C02,
    &headers::C03,
    &headers::C04,
    &headers::C05,
    &meta::C06,
    &headers::C07,
    &meta::C08,
    &headers::C09,
    &headers::C10,
    &headers::C11,
    &headers::C12,
    &headers::C13,
    &headers::C14,
    &codec::C15,
    &codec::C16,
    &headers::C17,
    &headers::C18,
    &headers::C19,
    &mime::C20,
    &mime::C21,
    &mime::C22,
    &meta::C23,
    &codec::C24,
    &mime::C25,
    &meta::C26,
    &headers::C27,
    &meta::C28,
    &fixpoint::C29,
    &effort::C30,
    &relate::C31,
    &relate::C32,
    &relate::C33,
    &relate::C34,
    &conc::C35,
    &conc::C36,
];
pub fn find(id: &str) -> Option<&'static PropDef> {
    ALL.iter().copied().find(|p| p.id == id)
}

/// labels shared by the checks that compare with the reference model
pub const STD: &[&str] = &[
    "valid as built",       // 0
    "printable edits",      // 1
    "arbitrary edits",      // 2
    "value of another kind", // 3
    "accepted",             // 4
    "rejected",             // 5
    "unspecified",          // 6
    "focus recognised",     // 7
    "focus degraded",       // 8
    "with trace block",     // 9
    "encoded words",        // 10
    "folded or commented",  // 11
    "special",              // 12
    "long",                 // 13
    "has body",             // 14
];
pub const L_VALID: u32 = 0;
pub const L_TWEAK: u32 = 1;
pub const L_EDIT: u32 = 2;
pub const L_FOREIGN: u32 = 3;
pub const L_ACC: u32 = 4;
pub const L_REJ: u32 = 5;
pub const L_GRAY: u32 = 6;
pub const L_REC: u32 = 7;
pub const L_DEG: u32 = 8;
pub const L_TRACE: u32 = 9;
pub const L_EW: u32 = 10;
pub const L_FOLD: u32 = 11;
pub const L_SPECIAL: u32 = 12;
pub const L_LONG: u32 = 13;
pub const L_BODY: u32 = 14;

pub fn show_fail(f: &Fail) -> String {
    match f {
        Fail::Err(e) => format!("error {:?}", e),
        Fail::Panic(m) => format!("panic: {}", m),
    }
}
pub fn clip(t: String) -> String {
    if t.len() > 1500 {
        let mut k = 1500;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &t[..k])
    } else {
        t
    }
}
/// the item that line n is part of; `at` is where the search for the line before ended
fn item_at<'m>(m: &'m MMsg, n: usize, at: &mut usize) -> Option<&'m crate::model::MItem> {
    while m.items.get(*at).map_or(false, |i| i.lines.1 <= n) {
        *at += 1;
    }
    m.items.get(*at).filter(|i| i.lines.0 <= n)
}
/// the constructed value must be what the model reads; otherwise the harness is wrong
pub fn cross_check(m: &MMsg, mail: &Mail) -> Result<(), String> {
    let mut at = 0;
    for (n, l) in mail.lines.iter().enumerate() {
        let Some(exp) = &l.exp else { continue };
        let Some(it) = item_at(m, n, &mut at) else { continue };
        if it.gray {
            continue;
        }
        // a header whose feature is off is free text
        if matches!(it.item, Item::Unknown { .. }) && !matches!(exp, Item::Unknown { .. }) {
            continue;
        }
        if matches!(it.item, Item::Trace(..)) {
            continue;
        }
        if it.item != *exp {
            return Err(clip(format!("HARNESS: built {:?} but the model reads {:?}", exp, it.item)));
        }
    }
    Ok(())
}
/// a header built as valid for an enabled feature must be recognised by the model
pub fn built_recognised(m: &MMsg, mail: &Mail, f: Feats) -> Result<(), String> {
    let mut at = 0;
    for (n, l) in mail.lines.iter().enumerate() {
        let Some(exp) = &l.exp else { continue };
        if !f.enabled(&l.lname()) {
            continue;
        }
        let Some(it) = item_at(m, n, &mut at) else { continue };
        if !it.gray && it.item.kind() != exp.kind() {
            return Err(clip(format!("HARNESS: built {:?} but the model reads {:?}", exp, it.item)));
        }
    }
    Ok(())
}

pub struct Checked {
    pub got: Option<Msg>,
    pub want: Option<MMsg>,
}
/// Parses `b` and compares what is in scope with the model.
pub fn check_message(c: &mut Ctx, b: &[u8], scope: &dyn Fn(&Item) -> bool) -> Result<Checked, String> {
    c.o.input = b.to_vec();
    let f = c.sut.feats();
    let want = model::message(b, f);
    let mut au = Audit::default();
    let got = c.sut.message(b, &mut au);
    let mut out = Checked { got: None, want: None };
    match (want, got) {
        (MRes::Gray, g) => {
            c.o.gray = true;
            c.o.label(L_GRAY);
            out.got = g.ok();
        }
        (MRes::Reject, Ok(g)) => {
            return Err(clip(format!("accepted, but the message is not valid: got {:?}", g)));
        }
        (MRes::Reject, Err(_)) => c.o.label(L_REJ),
        (MRes::Ok(m), Err(e)) => {
            if m.gray() {
                c.o.gray = true;
                c.o.label(L_GRAY);
            } else {
                return Err(clip(format!("rejected a valid message with {}: expected {:?}", show_fail(&e), m.items)));
            }
        }
        (MRes::Ok(m), Ok(g)) => {
            c.o.label(L_ACC);
            if m.gray() {
                c.o.label(L_GRAY);
            }
            if m.items.len() != g.items.len() {
                return Err(clip(format!("{} items, expected {}: got {:?} expected {:?}", g.items.len(), m.items.len(), g.items, m.items)));
            }
            for (w, g) in m.items.iter().zip(&g.items) {
                if w.gray || !(scope(&w.item) || scope(g)) {
                    continue;
                }
                if w.item != *g {
                    return Err(clip(format!("got {:?}, expected {:?}", g, w.item)));
                }
            }
            out.got = Some(g);
            out.want = Some(m);
        }
    }
    Ok(out)
}
/// compares the email struct with the model: slots in scope, lists, entity
pub struct EScope<'a> {
    pub slots: &'a dyn Fn(&str) -> bool,
    pub comments: bool,
    pub keywords: bool,
    pub trace: bool,
    pub unknown: bool,
    pub body: bool,
    pub ent: bool,
    pub errors: bool,
}
impl<'a> EScope<'a> {
    pub fn slots(f: &'a dyn Fn(&str) -> bool) -> EScope<'a> {
        EScope { slots: f, comments: false, keywords: false, trace: false, unknown: false, body: false, ent: false, errors: false }
    }
    pub fn all() -> EScope<'a> {
        EScope { slots: &|_| true, comments: true, keywords: true, trace: true, unknown: true, body: true, ent: true, errors: true }
    }
}
fn diff<T: PartialEq + std::fmt::Debug>(what: &str, g: &T, w: &T) -> Result<(), String> {
    if g != w {
        return Err(clip(format!("email {}: got {:?}, expected {:?}", what, g, w)));
    }
    Ok(())
}
pub fn check_email(c: &mut Ctx, b: &[u8], depth: usize, sc: &EScope) -> Result<Option<EmailV>, String> {
    let f = c.sut.feats();
    let want = model::email(b, f, depth);
    let mut au = Audit::default();
    let got = c.sut.email(b, depth, &mut au);
    compare_email(want, got, sc)
}
pub fn compare_email(want: ERes, got: SutRes<EmailV>, sc: &EScope) -> Result<Option<EmailV>, String> {
    match (want, got) {
        (ERes::Gray, _) => Ok(None),
        (ERes::Reject, Ok(g)) => Err(clip(format!("email accepted from an invalid message: {:?}", g))),
        (ERes::Reject, Err(_)) => Ok(None),
        (ERes::Err { .. }, Ok(g)) => {
            if sc.errors {
                Err(clip(format!("email accepted, but an error is due: {:?}", g)))
            } else {
                Ok(None)
            }
        }
        (ERes::Err { dup, missing, other }, Err(e)) => {
            if !sc.errors {
                return Ok(None);
            }
            let ok = match &e {
                Fail::Err(ErrV::Dup(n)) => dup.contains(&n.to_ascii_lowercase()),
                Fail::Err(ErrV::Missing(n)) => missing.contains(&n.to_ascii_lowercase()),
                Fail::Err(ErrV::Other(_)) => other,
                Fail::Panic(_) => false,
            };
            if !ok {
                return Err(format!("email: {}, expected duplicate {:?} or missing {:?}{}", show_fail(&e), dup, missing, if other { " or an encoding error" } else { "" }));
            }
            Ok(None)
        }
        (ERes::Ok(w), Err(e)) => Err(clip(format!("email rejected with {}: expected {:?}", show_fail(&e), w))),
        (ERes::Ok(w), Ok(g)) => {
            let names: std::collections::BTreeSet<&str> = w.slots.keys().chain(g.slots.keys()).copied().collect();
            for n in names {
                if (sc.slots)(n) {
                    diff(n, &g.slots.get(n), &w.slots.get(n))?;
                }
            }
            if sc.comments {
                diff("comments", &g.comments, &w.comments)?;
            }
            if sc.keywords {
                diff("keywords", &g.keywords, &w.keywords)?;
            }
            if sc.trace {
                diff("trace", &g.trace, &w.trace)?;
            }
            if sc.unknown {
                diff("unknown fields", &g.unknown, &w.unknown)?;
            }
            if sc.body {
                diff("body", &g.body, &w.body)?;
            }
            if sc.ent {
                if let (Some(a), Some(b)) = (&g.ent, &w.ent) {
                    ent_diff("entity", a, b)?;
                } else {
                    diff("entity", &g.ent, &w.ent)?;
                }
            }
            Ok(Some(g))
        }
    }
}
/// first differing field of two entities
pub fn ent_diff(path: &str, g: &Ent, w: &Ent) -> Result<(), String> {
    let d = |n: &str, a: String, b: String| Err(clip(format!("{}: {}: got {} expected {}", path, n, a, b)));
    if g.ty != w.ty || g.sub != w.sub {
        return d("type", format!("{:?}/{:?}", g.ty, g.sub), format!("{:?}/{:?}", w.ty, w.sub));
    }
    if g.params != w.params {
        return d("parameters", format!("{:?}", g.params), format!("{:?}", w.params));
    }
    if g.desc != w.desc {
        return d("description", format!("{:?}", g.desc), format!("{:?}", w.desc));
    }
    if g.id != w.id {
        return d("id", format!("{:?}", g.id), format!("{:?}", w.id));
    }
    if g.disp != w.disp {
        return d("disposition", format!("{:?}", g.disp), format!("{:?}", w.disp));
    }
    if g.value != w.value {
        return d("value", format!("{:?}", g.value), format!("{:?}", w.value));
    }
    if g.extra != w.extra {
        return d("headers", format!("{:?}", g.extra), format!("{:?}", w.extra));
    }
    match (g.node.as_deref(), w.node.as_deref()) {
        (Some(Node::Multi { sub: a, parts: p }), Some(Node::Multi { sub: b, parts: q })) => {
            if a != b {
                return d("subtype", format!("{:?}", a), format!("{:?}", b));
            }
            if p.len() != q.len() {
                return d("parts", format!("{} parts {:?}", p.len(), p), format!("{} parts {:?}", q.len(), q));
            }
            for (i, (x, y)) in p.iter().zip(q).enumerate() {
                ent_diff(&format!("{}[{}]", path, i), x, y)?;
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => d("decoded", format!("{:?}", a), format!("{:?}", b)),
    }
}

/// How one generated mail came about.
pub struct Made {
    pub b: Vec<u8>,
    /// as built, when nothing was edited
    pub mail: Option<Mail>,
    pub focus: Vec<Vec<u8>>,
}
pub struct Recipe<'a> {
    /// headers the property is about
    pub focus: &'a [&'a str],
    pub k: Knobs,
    /// how many focus headers (mean of the extra ones)
    pub more: u32,
    /// headers of the same name may occur twice
    pub repeat: bool,
    pub noise: u32,
    /// weights: as built, printable edits of a focus value, arbitrary edits of everything, a value of another kind
    pub modes: [u32; 4],
    pub email: bool,
}
impl<'a> Recipe<'a> {
    pub fn new(focus: &'a [&'a str], k: Knobs) -> Recipe<'a> {
        Recipe { focus, k, more: 1, repeat: false, noise: 1, modes: [50, 34, 8, 8], email: true }
    }
}
pub fn noise(mail: &mut Mail, c: &mut Ctx, k: Knobs, n: u32, avoid: &[&str]) {
    for _ in 0..c.s.size(n, 6) {
        if c.s.pct(40) {
            mail.unknown(c.s, k);
        } else {
            let t = *c.s.pick(&KNOWN[..]);
            let l = t.to_ascii_lowercase();
            if avoid.iter().any(|a| a.eq_ignore_ascii_case(t)) || mail.lines.iter().any(|x| x.lname() == l) {
                continue;
            }
            mail.known(c.s, k, t);
        }
    }
}
/// replaces the value of line n
pub fn set_value(mail: &mut Mail, n: usize, v: &[u8]) {
    let (a, z) = mail.lines[n].val;
    let tail = mail.b.split_off(z);
    mail.b.truncate(a);
    mail.b.extend_from_slice(v);
    mail.b.extend(tail);
    let d = v.len() as isize - (z - a) as isize;
    mail.lines[n].val.1 = a + v.len();
    mail.lines[n].exp = None;
    for l in mail.lines[n + 1..].iter_mut() {
        l.val.0 = (l.val.0 as isize + d) as usize;
        l.val.1 = (l.val.1 as isize + d) as usize;
    }
    if let Some(b) = mail.body.as_mut() {
        *b = (*b as isize + d) as usize;
    }
}
pub fn small_body(mail: &mut Mail, c: &mut Ctx) {
    match c.s.weighted(&[3, 1, 3]) {
        0 => {}
        1 => mail.end_headers(),
        _ => {
            mail.end_headers();
            let mut g = Gen::new(c.s, Knobs::plain());
            g.ascii_body();
            let o = g.o;
            mail.b.extend(o);
        }
    }
}
pub fn make(c: &mut Ctx, r: &Recipe) -> Made {
    let mut mail = Mail::default();
    let mode = c.s.weighted(&r.modes);
    c.o.label(mode as u32);
    if c.s.pct(8) {
        mail.trace_block(c.s, Knobs { cf: r.k.cf / 3, ..r.k });
        c.o.label(L_TRACE);
    }
    noise(&mut mail, c, Knobs { cf: r.k.cf / 4, ew: r.k.ew / 2, ..r.k }, r.noise, r.focus);
    let n = 1 + c.s.size(r.more, 6);
    let mut at = Vec::new();
    for _ in 0..n {
        let t = *c.s.pick(r.focus);
        if !r.repeat && mail.lines.iter().any(|x| x.lname().eq_ignore_ascii_case(t)) {
            continue;
        }
        at.push(mail.lines.len());
        mail.known(c.s, r.k, t);
    }
    if !at.is_empty() && mode == 3 {
        let i = at[c.s.below(at.len() as u32) as usize];
        let t = *c.s.pick(&KNOWN[..]);
        let mut g = Gen::new(c.s, r.k);
        let lname = t.to_ascii_lowercase();
        if g.s.pct(70) {
            g.value(&lname);
        } else {
            g.text();
        }
        let v = g.o;
        set_value(&mut mail, i, &v);
    }
    if !at.is_empty() && mode == 1 {
        let i = at[c.s.below(at.len() as u32) as usize];
        let mut v = mail.value(&mail.lines[i]).to_vec();
        tweak(c.s, &mut v);
        set_value(&mut mail, i, &v);
    }
    noise(&mut mail, c, Knobs { cf: r.k.cf / 4, ew: r.k.ew / 2, ..r.k }, r.noise, r.focus);
    if r.email && !c.s.pct(15) {
        mail.need(c.s);
    }
    small_body(&mut mail, c);
    if mail.body.is_some() {
        c.o.label(L_BODY);
    }
    let focus: Vec<Vec<u8>> = at.iter().map(|i| mail.value(&mail.lines[*i]).to_vec()).collect();
    let mut b = mail.b.clone();
    if mode == 2 {
        mutate(c.s, &mut b);
        return Made { b, mail: None, focus };
    }
    Made { b, mail: Some(mail), focus }
}
pub fn note_focus(c: &mut Ctx, made: &Made) {
    for v in &made.focus {
        if v.windows(2).any(|w| w == b"\r\n") || v.contains(&b'(') {
            c.o.label(L_FOLD);
        }
        if v.windows(2).any(|w| w == b"=?") {
            c.o.label(L_EW);
        }
        if v.len() > 200 {
            c.o.label(L_LONG);
        }
    }
}
/// The scheme shared by the header properties: build, compare items in scope, compare the email.
pub fn scheme(c: &mut Ctx, r: &Recipe, kinds: &[&str], esc: &EScope) -> Result<Made, String> {
    let made = make(c, r);
    note_focus(c, &made);
    let f = c.sut.feats();
    let in_focus = |n: &str| kinds.contains(&n);
    let sc = |i: &Item| match i {
        Item::Unknown { name, .. } => {
            let l = String::from_utf8_lossy(&name.t).to_ascii_lowercase();
            in_focus(&l)
        }
        i => in_focus(i.kind()),
    };
    let k = check_message(c, &made.b, &sc)?;
    if let (Some(w), Some(mail)) = (&k.want, &made.mail) {
        cross_check(w, mail)?;
        built_recognised(w, mail, f)?;
    } else if let (Some(mail), false) = (&made.mail, c.o.gray) {
        if mail.lines.iter().all(|l| matches!(l.exp, Some(Item::Unknown { .. })) || (l.exp.is_some() && f.enabled(&l.lname()))) {
            return Err(format!("HARNESS: a built message is not valid: {}", esc_bytes(&made.b)));
        }
    }
    let mut hit = false;
    if let Some(w) = &k.want {
        for it in &w.items {
            if it.gray {
                continue;
            }
            if in_focus(it.item.kind()) {
                c.o.label(L_REC);
                hit = true;
            } else if sc(&it.item) {
                c.o.label(L_DEG);
                hit = true;
            }
        }
    } else {
        hit = true;
    }
    if r.email && k.want.is_some() {
        check_email(c, &made.b, 0, esc)?;
    }
    c.o.nontrivial = hit;
    Ok(made)
}
pub fn esc_bytes(b: &[u8]) -> String {
    clip(esc(b))
}
/// Knobs fit for the feature set
pub fn knobs(c: &Ctx, cf: u32, ew: u32) -> Knobs {
    Knobs { cf, ew, mime: c.sut.feats().mime }
}
