//! C29: what was parsed can be written back and parsed again.
use super::*;

pub static C29: PropDef = PropDef {
    id: "C29",
    run: c29,
    labels: &["valid as built", "printable edits", "arbitrary edits", "value of another kind", "accepted", "rejected", "unspecified", "words quoted", "words encoded", "extended parameters", "free text encoded", "trace", "skipped item", "with body"],
    rule: "messages with every kind of header, valid, with printable edits, with arbitrary byte edits, or with foreign values; every item of an accepted message is checked against its grammar, written in canonical form and parsed again; non-trivial: at least one recognised item other than free text; distinct by message bytes",
};
struct W {
    o: Vec<u8>,
    mime: bool,
    quoted: bool,
    encoded: bool,
    ext: bool,
    text: bool,
    compat: bool,
}
fn bad<T>(what: &str, t: &[u8]) -> Result<T, String> {
    Err(clip(format!("{} {:?} contains what its grammar cannot express", what, esc(t))))
}
fn plain(t: &[u8]) -> bool {
    t.iter().all(|c| model::vchar(*c) || model::wsp(*c))
}
fn token(t: &[u8]) -> bool {
    !t.is_empty() && t.iter().all(|c| model::ttext(*c))
}
impl W {
    fn dot_atom(&self, t: &[u8]) -> bool {
        let mut words = t.split(|c| *c == b'.').enumerate();
        // consecutive and final periods are let through by compatibility-fixes
        words.all(|(i, w)| (!w.is_empty() || (self.compat && i > 0)) && w.iter().all(|c| model::atext(*c)))
    }
    fn p(&mut self, t: &[u8]) {
        self.o.extend_from_slice(t);
    }
    fn quote(&mut self, t: &[u8]) {
        self.quoted = true;
        self.p(b"\"");
        for c in t {
            if b"\"\\".contains(c) {
                self.p(b"\\");
            }
            self.o.push(*c);
        }
        self.p(b"\"");
    }
    /// encoded words of at most 75 characters, separated by white space
    fn encode(&mut self, t: &[u8], sep: &[u8]) -> Result<(), String> {
        let Ok(x) = std::str::from_utf8(t) else { return Err(clip(format!("the text {:?} is not UTF-8", esc(t)))) };
        let mut chunk = String::new();
        let mut first = true;
        let mut flush = |o: &mut Vec<u8>, chunk: &mut String| {
            if !first {
                o.extend_from_slice(sep);
            }
            first = false;
            o.extend_from_slice(b"=?utf-8?B?");
            o.extend(crate::gen::b64_encode(chunk.as_bytes()));
            o.extend_from_slice(b"?=");
            chunk.clear();
        };
        for ch in x.chars() {
            if chunk.len() + ch.len_utf8() > 45 {
                flush(&mut self.o, &mut chunk);
            }
            chunk.push(ch);
        }
        if !chunk.is_empty() {
            flush(&mut self.o, &mut chunk);
        }
        Ok(())
    }
    /// None: this word cannot be written as one word
    fn word(&mut self, s: &S) -> Result<bool, String> {
        let t = &s.t;
        if !t.is_empty() && t.iter().all(|c| model::atext(*c)) && !t.windows(2).any(|w| w == b"=?") {
            self.p(t);
        } else if plain(t) {
            self.quote(t);
        } else if self.mime {
            if t.len() > 45 {
                return Ok(false);
            }
            self.encoded = true;
            self.p(b" ");
            self.encode(t, b"\r\n ")?;
            self.p(b" ");
        } else {
            return bad("the word", t);
        }
        Ok(true)
    }
    fn phrase(&mut self, v: &[S]) -> Result<bool, String> {
        if v.is_empty() {
            return Err("a phrase without words".into());
        }
        for s in v {
            self.p(b" ");
            if !self.word(s)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn domain(&mut self, t: &[u8]) -> Result<(), String> {
        if self.dot_atom(t) {
            self.p(t);
        } else if t.iter().all(|c| model::dtext(*c)) {
            self.p(b"[");
            self.p(t);
            self.p(b"]");
        } else {
            return bad("the domain", t);
        }
        Ok(())
    }
    fn addr(&mut self, a: &Addr) -> Result<(), String> {
        if self.dot_atom(&a.local.t) {
            self.p(&a.local.t);
        } else if plain(&a.local.t) {
            self.quote(&a.local.t);
        } else {
            return bad("the local part", &a.local.t);
        }
        self.p(b"@");
        self.domain(&a.domain.t)
    }
    fn mbox(&mut self, m: &Mbox) -> Result<bool, String> {
        if let Some(n) = &m.name {
            if !self.phrase(n)? {
                return Ok(false);
            }
            self.p(b" <");
            self.addr(&m.addr)?;
            self.p(b">");
        } else {
            self.addr(&m.addr)?;
        }
        Ok(true)
    }
    fn mboxes(&mut self, v: &[Mbox]) -> Result<bool, String> {
        if v.is_empty() {
            return Err("an empty list of mailboxes".into());
        }
        for (i, m) in v.iter().enumerate() {
            if i > 0 {
                self.p(b",\r\n ");
            }
            if !self.mbox(m)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn addresses(&mut self, v: &[Address], may_be_empty: bool) -> Result<bool, String> {
        if v.is_empty() && !may_be_empty {
            return Err("an empty list of addresses".into());
        }
        for (i, a) in v.iter().enumerate() {
            if i > 0 {
                self.p(b",\r\n ");
            }
            match a {
                Address::M(m) => {
                    if !self.mbox(m)? {
                        return Ok(false);
                    }
                }
                Address::G(n, v) => {
                    if !self.phrase(n)? {
                        return Ok(false);
                    }
                    self.p(b":");
                    if !v.is_empty() && !self.mboxes(v)? {
                        return Ok(false);
                    }
                    self.p(b";");
                }
            }
        }
        Ok(true)
    }
    fn id(&mut self, i: &Id) -> Result<(), String> {
        if !self.dot_atom(&i.0.t) {
            return bad("the left side of the identifier", &i.0.t);
        }
        self.p(b"<");
        self.p(&i.0.t);
        self.p(b"@");
        self.domain(&i.1.t)?;
        self.p(b">");
        Ok(())
    }
    fn ids(&mut self, v: &[Id]) -> Result<(), String> {
        if v.is_empty() {
            return Err("an empty list of identifiers".into());
        }
        for (n, i) in v.iter().enumerate() {
            if n > 0 {
                self.p(b"\r\n ");
            }
            self.id(i)?;
        }
        Ok(())
    }
    fn date(&mut self, d: &DT) -> Result<(), String> {
        const DOW: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
        const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        if !(1..=31).contains(&d.day) || !(1..=12).contains(&d.mon) || d.year < 1900 || d.h > 23 || d.m > 59 || d.s > 60 || d.zh > 99 || d.zm > 59 || d.dow.map(|w| !(1..=7).contains(&w)).unwrap_or(false) {
            return Err(format!("the date {:?} is out of range", d));
        }
        if let Some(w) = d.dow {
            self.p(DOW[w as usize - 1].as_bytes());
            self.p(b", ");
        }
        let t = format!("{} {} {:04} {:02}:{:02}:{:02} {}{:02}{:02}", d.day, MON[d.mon as usize - 1], d.year, d.h, d.m, d.s, if d.plus { '+' } else { '-' }, d.zh, d.zm);
        self.p(t.as_bytes());
        Ok(())
    }
    /// None: cannot be written (nothing can carry it in this feature set)
    fn free(&mut self, s: &S, decode: bool) -> Result<(), String> {
        let t = &s.t;
        let clean = plain(t) && !matches!(t.last(), Some(b' ' | b'\t'));
        if !decode {
            if !clean {
                return bad("the text", t);
            }
            self.p(t);
            return Ok(());
        }
        if clean && !t.windows(2).any(|w| w == b"=?") {
            self.p(t);
            return Ok(());
        }
        self.text = true;
        self.encode(t, b"\r\n ")
    }
    fn params(&mut self, p: &Params) -> Result<bool, String> {
        for (n, v) in p {
            let n = &n.t;
            if !token(n) || n.iter().any(|c| c.is_ascii_uppercase()) {
                return bad("the parameter name", n);
            }
            if n.contains(&b'*') {
                return Ok(false);
            }
            self.p(b";\r\n ");
            self.p(n);
            if token(&v.t) {
                self.p(b"=");
                self.p(&v.t);
            } else if plain(&v.t) {
                self.p(b"=");
                self.quote(&v.t);
            } else {
                if std::str::from_utf8(&v.t).is_err() {
                    return Err(clip(format!("the parameter {:?} is not UTF-8", v)));
                }
                self.ext = true;
                self.p(b"*=utf-8''");
                for c in v.t.iter() {
                    if c.is_ascii_alphanumeric() {
                        self.o.push(*c);
                    } else {
                        self.p(format!("%{:02X}", c).as_bytes());
                    }
                }
            }
        }
        Ok(true)
    }
    fn kw(&mut self, k: &Kw) -> Result<(), String> {
        if !token(&k.name.t) || k.name.t.iter().any(|c| c.is_ascii_uppercase()) {
            return bad("the keyword", &k.name.t);
        }
        self.p(&k.name.t);
        Ok(())
    }
    fn line(&mut self, name: &str) {
        self.p(name.as_bytes());
        self.p(b":");
    }
    /// false: cannot be written (skipped)
    fn item(&mut self, it: &Item, prefix: &str, f: Feats) -> Result<bool, String> {
        let name = format!("{}{}", prefix, it.kind());
        match it {
            Item::Trace(t) => {
                if let Some(rp) = &t.rp {
                    self.line("Return-Path");
                    self.p(b" <");
                    if let Some(a) = rp {
                        self.addr(a)?;
                    }
                    self.p(b">\r\n");
                }
                if t.recv.is_empty() {
                    return Err("a trace block without Received".into());
                }
                for (toks, d) in &t.recv {
                    self.line("Received");
                    for t in toks {
                        self.p(b" ");
                        match t {
                            Tok::Word(s) => {
                                let m = self.mime;
                                self.mime = false;
                                let r = self.word(s);
                                self.mime = m;
                                r?;
                            }
                            Tok::Addr(a) => {
                                self.p(b"<");
                                self.addr(a)?;
                                self.p(b">");
                            }
                            Tok::Domain(s) => {
                                if self.dot_atom(&s.t) && s.t.contains(&b'.') {
                                    self.p(&s.t);
                                } else if s.t.iter().all(|c| model::dtext(*c)) {
                                    self.p(b"[");
                                    self.p(&s.t);
                                    self.p(b"]");
                                } else {
                                    return bad("the domain", &s.t);
                                }
                            }
                        }
                    }
                    self.p(b" ; ");
                    self.date(d)?;
                    self.p(b"\r\n");
                }
                for i in &t.fields {
                    if !self.item(i, "Resent-", f)? {
                        return Ok(false);
                    }
                }
                return Ok(true);
            }
            Item::Unknown { name, value } => {
                if name.t.is_empty() || !name.t.iter().all(|c| model::ftext(*c)) {
                    return bad("the field name", &name.t);
                }
                let l = String::from_utf8_lossy(&name.t).to_ascii_lowercase();
                let known = KNOWN.iter().any(|k| k.eq_ignore_ascii_case(&l)) || l == "received" || l == "return-path" || l.starts_with("resent-");
                if known {
                    self.p(b"X-");
                }
                let n = name.t.clone();
                self.p(&n);
                self.p(b":");
                self.free(value, f.unrec)?;
                self.p(b"\r\n");
                return Ok(true);
            }
            _ => {}
        }
        self.line(&name);
        if !matches!(it, Item::Subject(_) | Item::Comments(_) | Item::ContentDescription(_)) {
            self.p(b" ");
        }
        let ok = match it {
            Item::Date(d) => {
                self.date(d)?;
                true
            }
            Item::From(v) => self.mboxes(v)?,
            Item::Sender(m) => self.mbox(m)?,
            Item::ReplyTo(v) | Item::To(v) | Item::Cc(v) => self.addresses(v, false)?,
            Item::Bcc(v) => self.addresses(v, true)?,
            Item::MessageId(i) | Item::ContentId(i) => {
                self.id(i)?;
                true
            }
            Item::InReplyTo(v) | Item::References(v) => {
                self.ids(v)?;
                true
            }
            Item::Subject(s) | Item::Comments(s) | Item::ContentDescription(s) => {
                self.free(s, f.mime)?;
                true
            }
            Item::Keywords(k) => {
                if k.is_empty() {
                    return Err("Keywords without phrases".into());
                }
                let mut ok = true;
                for (i, p) in k.iter().enumerate() {
                    if i > 0 {
                        self.p(b",");
                    }
                    ok = self.phrase(p)?;
                    if !ok {
                        break;
                    }
                }
                ok
            }
            Item::MimeVersion(a, b) => {
                self.p(format!("{}.{}", a, b).as_bytes());
                true
            }
            Item::ContentType { ty, sub, params } => {
                self.kw(ty)?;
                self.p(b"/");
                if !token(&sub.t) || sub.t.iter().any(|c| c.is_ascii_uppercase()) {
                    return bad("the subtype", &sub.t);
                }
                self.p(&sub.t);
                self.params(params)?
            }
            Item::Cte(k) => {
                self.kw(k)?;
                true
            }
            Item::ContentDisposition(d) => {
                self.kw(&d.kind)?;
                for (n, x) in [("creation-date", &d.creation), ("modification-date", &d.modification), ("read-date", &d.read)] {
                    if let Some(x) = x {
                        self.p(format!("; {}=\"", n).as_bytes());
                        self.date(x)?;
                        self.p(b"\"");
                    }
                }
                let mut p = d.params.clone();
                if DATES.iter().any(|n| p.contains_key(&n[..])) {
                    // a date the grammar may or may not allow
                    return Ok(false);
                }
                if let Some(n) = &d.filename {
                    p.insert(S::any("filename"), n.clone());
                }
                self.params(&p)?
            }
            _ => true,
        };
        self.p(b"\r\n");
        Ok(ok)
    }
}
/// is what was read what the model reads (as far as that is fixed)?
fn as_specified(b: &[u8], g: &Msg, f: Feats) -> bool {
    match model::message(b, f) {
        MRes::Gray => true,
        MRes::Reject => false,
        MRes::Ok(m) => m.items.len() == g.items.len() && m.items.iter().zip(&g.items).all(|(w, i)| w.gray || w.item == *i),
    }
}
const DATES: [&[u8]; 3] = [b"creation-date", b"modification-date", b"read-date"];
fn c29(c: &mut Ctx) -> Result<(), String> {
    let f = c.sut.feats();
    let k = knobs(c, *[0u32, 8, 20].get(0).unwrap(), 12);
    let k = Knobs { cf: *c.s.pick(&[0u32, 8, 20]), ..k };
    let mut r = Recipe::new(&KNOWN[..], k);
    r.more = 2;
    r.noise = 1;
    r.modes = [25, 40, 20, 15];
    let made = make(c, &r);
    let b = made.b;
    c.o.input = b.clone();
    let mut au = Audit::default();
    let g = match c.sut.message(&b, &mut au) {
        Ok(g) => g,
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(_) => {
            c.o.labels &= !(1 << L_BODY);
            c.o.label(5);
            return Ok(());
        }
    };
    c.o.labels &= 15;
    c.o.label(4);
    let mut w = W { o: Vec::new(), mime: f.mime, quoted: false, encoded: false, ext: false, text: false, compat: f.compat };
    let mut kept: Vec<Item> = Vec::new();
    for it in &g.items {
        let at = w.o.len();
        if !w.item(it, "", f)? {
            w.o.truncate(at);
            c.o.label(12);
            continue;
        }
        if !matches!(it, Item::Subject(_) | Item::Comments(_) | Item::Unknown { .. } | Item::ContentDescription(_)) {
            c.o.nontrivial = true;
        }
        if it.kind() == "trace" {
            c.o.label(11);
        }
        // renamed ones keep their text
        kept.push(match it {
            Item::Unknown { name, value } => {
                let mut n = name.t.clone();
                if w.o[at..].starts_with(b"X-") && !w.o[at + 2..].is_empty() && w.o[at + 2..].starts_with(&n) && !n.starts_with(b"X-") {
                    n.splice(0..0, b"X-".iter().copied());
                }
                Item::Unknown { name: S::any(n), value: value.clone() }
            }
            i => i.clone(),
        });
    }
    for (on, l) in [(w.quoted, 7), (w.encoded, 8), (w.ext, 9), (w.text, 10)] {
        if on {
            c.o.label(l);
        }
    }
    let mut again = w.o;
    if let Some(x) = &g.body {
        c.o.label(13);
        again.extend_from_slice(b"\r\n");
        again.extend_from_slice(&x.t);
    }
    let show = again.clone();
    match model::message(&again, f) {
        MRes::Ok(m) if !m.gray() => {
            let v: Vec<Item> = m.items.iter().map(|i| i.item.clone()).collect();
            if v != kept {
                let d = v.iter().zip(&kept).find(|(a, b)| a != b);
                if !as_specified(&b, &g, f) {
                    return Err(clip(format!("the canonical form {:?} of {:?} reads {:?}", esc_bytes(&show), kept, d)));
                }
                return Err(clip(format!("HARNESS: the canonical form {:?} of {:?} reads {:?}", esc_bytes(&show), kept, d)));
            }
        }
        MRes::Reject if !as_specified(&b, &g, f) => return Err(clip(format!("the values have no valid form: {}", esc_bytes(&show)))),
        MRes::Reject => return Err(clip(format!("HARNESS: the canonical form {} is not valid", esc_bytes(&show)))),
        _ => {
            c.o.gray = true;
            c.o.label(6);
            return Ok(());
        }
    }
    let g2 = c.sut.message(&again, &mut au).map_err(|e| clip(format!("the canonical form {} is rejected: {}", esc_bytes(&show), show_fail(&e))))?;
    if g2.items.len() != kept.len() {
        return Err(clip(format!("{} items became {} in {}", kept.len(), g2.items.len(), esc_bytes(&show))));
    }
    for (x, y) in kept.iter().zip(&g2.items) {
        if x != y {
            return Err(clip(format!("{:?} reads {:?} in the canonical form {}", x, y, esc_bytes(&show))));
        }
    }
    if g.body.as_ref().map(|s| &s.t) != g2.body.as_ref().map(|s| &s.t) {
        return Err("the body changed".into());
    }
    Ok(())
}
