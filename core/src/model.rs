//! The reference model: what a message means, written from RFC 5322, 2045, 2046, 2047, 2183, 2231 and the crate's
//! documentation, independently of the crate's code. Values whose meaning neither fixes are marked `gray`.
use crate::tables;
use crate::types::*;

// ---------------------------------------------------------------- characters
pub fn wsp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
pub fn vchar(c: u8) -> bool {
    (0x21..=0x7e).contains(&c)
}
pub fn atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}
pub fn ctext(c: u8) -> bool {
    vchar(c) && !b"()\\".contains(&c)
}
pub fn qtext(c: u8) -> bool {
    vchar(c) && !b"\"\\".contains(&c)
}
pub fn dtext(c: u8) -> bool {
    vchar(c) && !b"[]\\".contains(&c)
}
pub fn ftext(c: u8) -> bool {
    vchar(c) && c != b':'
}
pub fn ttext(c: u8) -> bool {
    vchar(c) && !b"()<>@,;:\\\"/[]?=".contains(&c)
}
pub const ESPECIALS: &[u8] = b"()<>@,;:\\\"/[]?.=";

// ---------------------------------------------------------------- charsets
pub enum Dec {
    Ok(String),
    Gray,
    Err,
    Unknown,
}
/// the charset name must be lowercase
pub fn decode_charset(bytes: &[u8], cs: &[u8]) -> Dec {
    if cs == b"utf-8" || cs == b"us-ascii" {
        if cs == b"us-ascii" && !bytes.is_ascii() {
            return match std::str::from_utf8(bytes) {
                Ok(_) => Dec::Gray,
                Err(_) => Dec::Err,
            };
        }
        return match std::str::from_utf8(bytes) {
            Ok(s) => Dec::Ok(s.to_string()),
            Err(_) => Dec::Err,
        };
    }
    for (name, t) in tables::ISO8859.iter() {
        if name.as_bytes() == cs {
            let mut o = String::new();
            for &b in bytes {
                if b < 0x80 {
                    o.push(b as char);
                } else if b < 0xa0 || t[(b - 0xa0) as usize] == 0 {
                    return Dec::Gray;
                } else {
                    o.push(char::from_u32(t[(b - 0xa0) as usize] as u32).unwrap());
                }
            }
            return Dec::Ok(o);
        }
    }
    if cs == b"iso-6937" {
        let mut o = String::new();
        let mut i = 0;
        while i < bytes.len() {
            let b = bytes[i];
            if b < 0x80 {
                o.push(b as char);
                i += 1;
            } else if let Some((_, u)) = tables::ISO6937_1.iter().find(|(x, _)| *x == b) {
                o.push(char::from_u32(*u as u32).unwrap());
                i += 1;
            } else if i + 1 < bytes.len() {
                match tables::ISO6937_2.iter().find(|(x, y, _)| *x == b && *y == bytes[i + 1]) {
                    Some((_, _, u)) => o.push(char::from_u32(*u as u32).unwrap()),
                    None => return Dec::Gray,
                }
                i += 2;
            } else {
                return Dec::Gray;
            }
        }
        return Dec::Ok(o);
    }
    if cs == b"gb2312" {
        let mut o = String::new();
        let mut i = 0;
        while i < bytes.len() {
            let b = bytes[i];
            if b < 0x80 {
                o.push(b as char);
                i += 1;
            } else if i + 1 < bytes.len() && (0xa1..=0xf7).contains(&b) && (0xa1..=0xfe).contains(&bytes[i + 1]) {
                let u = tables::GB2312[(b - 0xa1) as usize * 94 + (bytes[i + 1] - 0xa1) as usize];
                if u == 0 {
                    return Dec::Gray;
                }
                o.push(char::from_u32(u as u32).unwrap());
                i += 2;
            } else {
                return Dec::Gray;
            }
        }
        return Dec::Ok(o);
    }
    Dec::Unknown
}
pub fn charset_known(cs: &[u8]) -> bool {
    !matches!(decode_charset(b"", cs), Dec::Unknown)
}

// ---------------------------------------------------------------- transfer encodings
fn b64_val(c: u8) -> Option<u32> {
    Some(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        b'/' => 63,
        _ => return None,
    } as u32)
}
pub struct B64 {
    /// None: must be rejected
    pub data: Option<Vec<u8>>,
    pub gray: bool,
    /// characters outside the alphabet were skipped
    pub junk: bool,
}
pub fn b64_decode(d: &[u8]) -> B64 {
    let mut out = Vec::new();
    let (mut acc, mut n, mut pad) = (0u32, 0, 0);
    let mut done = false;
    let (mut gray, mut junk) = (false, false);
    for &c in d {
        if let Some(v) = b64_val(c) {
            if pad > 0 {
                return B64 { data: None, gray, junk };
            }
            if done {
                gray = true;
            }
            acc = acc << 6 | v;
            n += 1;
            if n == 4 {
                out.extend_from_slice(&[(acc >> 16) as u8, (acc >> 8) as u8, acc as u8]);
                acc = 0;
                n = 0;
            }
        } else if c == b'=' {
            if n + pad < 2 {
                gray = true;
                continue;
            }
            pad += 1;
            if n + pad == 4 {
                if n == 2 {
                    gray |= acc & 15 != 0;
                    out.push((acc >> 4) as u8);
                } else {
                    gray |= acc & 3 != 0;
                    out.extend_from_slice(&[(acc >> 10) as u8, (acc >> 2) as u8]);
                }
                acc = 0;
                n = 0;
                pad = 0;
                done = true;
            }
        } else {
            junk = true;
        }
    }
    if n != 0 {
        return B64 { data: None, gray, junk };
    }
    B64 { data: Some(out), gray, junk }
}
pub fn hex(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
pub const FFFD: &[u8] = "\u{fffd}".as_bytes();
/// (decoded, gray)
pub fn qp_decode(d: &[u8]) -> (Vec<u8>, bool) {
    let mut o = Vec::new();
    let mut gray = false;
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        if c == b'=' {
            if d[i + 1..].starts_with(b"\r\n") {
                i += 3;
            } else if i + 2 < d.len() {
                match (hex(d[i + 1]), hex(d[i + 2])) {
                    (Some(a), Some(b)) => o.push(a * 16 + b),
                    _ => {
                        if d[i + 1..i + 3].iter().any(|c| b"\r\n=".contains(c)) || wsp(d[i + 1]) {
                            gray = true;
                        }
                        o.extend_from_slice(FFFD);
                    }
                }
                i += 3;
            } else {
                gray = true;
                o.push(c);
                i += 1;
            }
        } else if wsp(c) {
            let mut j = i;
            while j < d.len() && wsp(d[j]) {
                j += 1;
            }
            if d[j..].starts_with(b"\r\n") || j == d.len() {
                gray = true;
            }
            o.extend_from_slice(&d[i..j]);
            i = j;
        } else if vchar(c) {
            o.push(c);
            i += 1;
        } else if c == b'\r' && d.get(i + 1) == Some(&b'\n') {
            o.extend_from_slice(b"\r\n");
            i += 2;
        } else {
            o.extend_from_slice(FFFD);
            i += 1;
        }
    }
    (o, gray)
}

// ---------------------------------------------------------------- encoded words
pub enum Ew {
    No,
    Yes { end: usize, text: String },
    /// looks like one, but its reading is not fixed
    Gray,
}
pub fn encoded_word(b: &[u8], at: usize, phrase: bool) -> Ew {
    let before = if at == 0 { b' ' } else { b[at - 1] };
    let b = &b[at..];
    if !b.starts_with(b"=?") {
        return Ew::No;
    }
    let run = |mut i: usize, f: &dyn Fn(u8) -> bool| {
        while i < b.len() && f(b[i]) {
            i += 1;
        }
        i
    };
    let tok = |c: u8| vchar(c) && !ESPECIALS.contains(&c);
    let e = run(2, &|c| tok(c) && c != b'*');
    if e == 2 {
        return Ew::No;
    }
    let cs = b[2..e].to_ascii_lowercase();
    let mut i = e;
    if b.get(i) == Some(&b'*') {
        let e = run(i + 1, &tok);
        if e == i + 1 {
            return Ew::No;
        }
        if b[i + 1..e].contains(&b'*') {
            return Ew::Gray;
        }
        i = e;
    }
    if b.get(i) != Some(&b'?') {
        return Ew::No;
    }
    let e = run(i + 1, &tok);
    let enc = b[i + 1..e].to_ascii_lowercase();
    if enc.is_empty() || b.get(e) != Some(&b'?') {
        return Ew::No;
    }
    let t0 = e + 1;
    let t1 = run(t0, &|c| vchar(c) && c != b'?');
    if t1 == t0 || !b[t1..].starts_with(b"?=") {
        return Ew::No;
    }
    let text = &b[t0..t1];
    let end = t1 + 2;
    let bytes = match &enc[..] {
        b"b" => {
            let r = b64_decode(text);
            if r.gray || r.junk {
                return Ew::Gray;
            }
            match r.data {
                Some(d) => d,
                None => return Ew::No,
            }
        }
        b"q" => {
            let mut o = Vec::new();
            let mut i = 0;
            while i < text.len() {
                match text[i] {
                    b'_' => o.push(b' '),
                    b'=' => match (text.get(i + 1).and_then(|c| hex(*c)), text.get(i + 2).and_then(|c| hex(*c))) {
                        (Some(a), Some(b)) => {
                            o.push(a * 16 + b);
                            i += 2;
                        }
                        _ => return Ew::Gray,
                    },
                    c => o.push(c),
                }
                i += 1;
            }
            o
        }
        _ => return Ew::No,
    };
    let text = match decode_charset(&bytes, &cs) {
        Dec::Ok(s) => s,
        Dec::Gray => return Ew::Gray,
        Dec::Err | Dec::Unknown => return Ew::No,
    };
    if end > 75 {
        return Ew::Gray;
    }
    if phrase && !b[..end].iter().all(|c| atext(*c)) {
        return Ew::Gray;
    }
    // it has to stand between white space
    match b.get(end) {
        None => {}
        Some(c) if wsp(*c) || *c == b'\r' => {}
        _ => return Ew::Gray,
    }
    if !(wsp(before) || before == b':') {
        return Ew::Gray;
    }
    Ew::Yes { end: at + end, text }
}

// ---------------------------------------------------------------- accumulating a value
struct Acc {
    t: Vec<u8>,
    /// None: nothing yet. Some(None): not contiguous
    at: Option<Option<usize>>,
}
impl Acc {
    fn new() -> Acc {
        Acc { t: Vec::new(), at: None }
    }
    fn range(&mut self, p: &P, a: usize, b: usize) {
        if a == b {
            return;
        }
        self.at = match self.at {
            None => Some(Some(a)),
            Some(Some(s)) if s + self.t.len() == a => Some(Some(s)),
            _ => Some(None),
        };
        self.t.extend_from_slice(&p.b[a..b]);
    }
    fn other(&mut self, t: &[u8]) {
        self.at = Some(None);
        self.t.extend_from_slice(t);
    }
    fn done(self, p: &P) -> S {
        let prov = match (self.at, p.base) {
            (Some(Some(a)), Some(base)) => Prov::In(base + a),
            _ => Prov::Any,
        };
        S { t: self.t, p: prov }
    }
}

// ---------------------------------------------------------------- the structured grammar
/// Parses the value `b[..end]` of one logical line.
pub struct P<'a> {
    pub b: &'a [u8],
    pub end: usize,
    /// offset of b[0] in the caller's buffer, when it lies there
    pub base: Option<usize>,
    pub f: Feats,
    pub gray: bool,
}
type R<T> = Option<(usize, T)>;

impl<'a> P<'a> {
    fn at(&self, i: usize) -> Option<u8> {
        if i < self.end {
            Some(self.b[i])
        } else {
            None
        }
    }
    fn run(&self, mut i: usize, f: impl Fn(u8) -> bool) -> usize {
        while i < self.end && f(self.b[i]) {
            i += 1;
        }
        i
    }
    fn sub(&self, a: usize, b: usize) -> S {
        let mut x = Acc::new();
        x.range(self, a, b);
        x.done(self)
    }
    fn lit(&self, i: usize, c: u8) -> Option<usize> {
        if self.at(i) == Some(c) {
            Some(i + 1)
        } else {
            None
        }
    }
    /// end of the FWS at i (i when there is none)
    pub fn fws(&self, i: usize) -> usize {
        let j = self.run(i, wsp);
        if self.at(j) == Some(b'\r') && self.at(j + 1) == Some(b'\n') {
            let k = self.run(j + 2, wsp);
            if k > j + 2 {
                return k;
            }
        }
        j
    }
    fn comment(&self, i: usize) -> Option<usize> {
        let mut i = self.lit(i, b'(')?;
        let mut depth = 1;
        while depth > 0 {
            i = self.fws(i);
            match self.at(i)? {
                b'(' => depth += 1,
                b')' => depth -= 1,
                b'\\' => {
                    let c = self.at(i + 1)?;
                    if !(vchar(c) || wsp(c)) {
                        return None;
                    }
                    i += 1;
                }
                c if ctext(c) => {}
                _ => return None,
            }
            i += 1;
        }
        Some(i)
    }
    /// end of the optional CFWS at i
    pub fn cfws(&self, mut i: usize) -> usize {
        loop {
            let j = self.fws(i);
            match self.comment(j) {
                Some(k) => i = k,
                None => return j,
            }
        }
    }
    fn quoted_content(&mut self, i: usize) -> R<S> {
        let mut i = self.lit(i, b'"')?;
        let mut o = Acc::new();
        let mut esc = false;
        loop {
            let j = self.fws(i);
            if j > i {
                // the line break of a fold is not part of the value
                let k = self.run(i, wsp);
                o.range(self, i, k);
                if k < j {
                    o.range(self, k + 2, j);
                }
                i = j;
            }
            match self.at(i)? {
                b'"' => break,
                b'\\' => {
                    let c = self.at(i + 1)?;
                    if !(vchar(c) || wsp(c)) {
                        return None;
                    }
                    o.range(self, i + 1, i + 2);
                    esc = true;
                    i += 2;
                }
                c if qtext(c) => {
                    o.range(self, i, i + 1);
                    i += 1;
                }
                _ => return None,
            }
        }
        let mut s = o.done(self);
        if esc {
            s.p = Prov::Any;
        }
        Some((i + 1, s))
    }
    fn quoted_string(&mut self, i: usize) -> R<S> {
        let i = self.cfws(i);
        let (i, s) = self.quoted_content(i)?;
        Some((self.cfws(i), s))
    }
    fn atom(&self, i: usize) -> R<S> {
        let i = self.cfws(i);
        let j = self.run(i, atext);
        if j == i {
            return None;
        }
        Some((self.cfws(j), self.sub(i, j)))
    }
    fn dot_atom_text(&self, i: usize) -> R<S> {
        let mut j = self.run(i, atext);
        if j == i {
            return None;
        }
        while self.at(j) == Some(b'.') {
            let k = self.run(j + 1, atext);
            if k == j + 1 && !self.f.compat {
                break;
            }
            j = k;
        }
        Some((j, self.sub(i, j)))
    }
    fn dot_atom(&self, i: usize) -> R<S> {
        let (i, s) = self.dot_atom_text(self.cfws(i))?;
        Some((self.cfws(i), s))
    }
    fn domain_literal(&mut self, i: usize) -> R<S> {
        let mut i = self.lit(self.cfws(i), b'[')?;
        let mut o = Acc::new();
        loop {
            i = self.fws(i);
            let j = self.run(i, dtext);
            if j == i {
                break;
            }
            o.range(self, i, j);
            i = j;
        }
        let i = self.lit(i, b']')?;
        Some((self.cfws(i), o.done(self)))
    }
    fn addr_spec(&mut self, i: usize) -> R<Addr> {
        let (i, local) = match self.dot_atom(i) {
            Some(x) => x,
            None => self.quoted_string(i)?,
        };
        let i = self.lit(i, b'@')?;
        let (i, domain) = match self.dot_atom(i) {
            Some(x) => x,
            None => self.domain_literal(i)?,
        };
        Some((i, Addr { local, domain }))
    }
    fn angle_addr(&mut self, i: usize) -> R<Addr> {
        let i = self.lit(self.cfws(i), b'<')?;
        let (i, a) = self.addr_spec(i)?;
        let i = self.lit(i, b'>')?;
        Some((self.cfws(i), a))
    }
    fn word(&mut self, i: usize) -> R<S> {
        match self.atom(i) {
            Some(x) => Some(x),
            None => self.quoted_string(i),
        }
    }
    fn phrase(&mut self, i: usize) -> R<Vec<S>> {
        let mut words = Vec::new();
        let mut i = i;
        loop {
            if self.f.mime {
                let j = self.cfws(i);
                match encoded_word(&self.b[..self.end], j, true) {
                    Ew::Yes { end, text } => {
                        words.push(S::any(text));
                        i = self.cfws(end);
                        continue;
                    }
                    Ew::Gray => {
                        self.gray = true;
                        return None;
                    }
                    Ew::No => {}
                }
            }
            match self.word(i) {
                Some((j, w)) => {
                    words.push(w);
                    i = j;
                }
                None => break,
            }
        }
        if words.is_empty() {
            return None;
        }
        Some((i, words))
    }
    fn mailbox(&mut self, i: usize) -> R<Mbox> {
        let (j, name) = match self.phrase(i) {
            Some((j, n)) => (j, Some(n)),
            None => (i, None),
        };
        if let Some((j, addr)) = self.angle_addr(j) {
            return Some((j, Mbox { name, addr }));
        }
        let (i, addr) = self.addr_spec(i)?;
        Some((i, Mbox { name: None, addr }))
    }
    fn list<T>(&mut self, i: usize, f: impl Fn(&mut Self, usize) -> R<T>) -> R<Vec<T>> {
        let (mut i, x) = f(self, i)?;
        let mut v = vec![x];
        while let Some(j) = self.lit(i, b',') {
            match f(self, j) {
                Some((k, x)) => {
                    v.push(x);
                    i = k;
                }
                None => break,
            }
        }
        Some((i, v))
    }
    fn mailboxes(&mut self, i: usize) -> R<Vec<Mbox>> {
        self.list(i, |p, i| p.mailbox(i))
    }
    fn address(&mut self, i: usize) -> R<Address> {
        if let Some((i, m)) = self.mailbox(i) {
            return Some((i, Address::M(m)));
        }
        let (i, name) = self.phrase(i)?;
        let i = self.lit(i, b':')?;
        let (i, v) = match self.mailboxes(i) {
            Some(x) => x,
            None => (self.cfws(i), vec![]),
        };
        let i = self.lit(i, b';')?;
        Some((self.cfws(i), Address::G(name, v)))
    }
    fn addresses(&mut self, i: usize) -> R<Vec<Address>> {
        self.list(i, |p, i| p.address(i))
    }
    fn msg_id(&mut self, i: usize) -> R<Id> {
        let i = self.lit(self.cfws(i), b'<')?;
        let (i, l) = self.dot_atom_text(i)?;
        let i = self.lit(i, b'@')?;
        let (i, r) = match self.dot_atom_text(i) {
            Some(x) => x,
            None => {
                let i = self.lit(i, b'[')?;
                let j = self.run(i, dtext);
                (self.lit(j, b']')?, self.sub(i, j))
            }
        };
        let i = self.lit(i, b'>')?;
        Some((self.cfws(i), (l, r)))
    }
    fn msg_ids(&mut self, i: usize) -> R<Vec<Id>> {
        let (mut i, x) = self.msg_id(i)?;
        let mut v = vec![x];
        while let Some((j, x)) = self.msg_id(i) {
            v.push(x);
            i = j;
        }
        Some((i, v))
    }
    fn two(&self, i: usize) -> R<u8> {
        let (a, b) = (self.at(i)?, self.at(i + 1)?);
        if a.is_ascii_digit() && b.is_ascii_digit() {
            Some((i + 2, (a - b'0') * 10 + b - b'0'))
        } else {
            None
        }
    }
    fn name3(&self, i: usize, names: &str) -> R<u8> {
        if i + 3 > self.end {
            return None;
        }
        let w = self.b[i..i + 3].to_ascii_lowercase();
        names.as_bytes().chunks(3).position(|n| n == &w[..]).map(|k| (i + 3, k as u8 + 1))
    }
    fn fws1(&self, i: usize) -> Option<usize> {
        let j = self.fws(i);
        if j > i {
            Some(j)
        } else {
            None
        }
    }
    pub fn date_time(&mut self, i: usize) -> R<DT> {
        let mut i0 = i;
        let mut dow = None;
        if let Some((j, d)) = self.name3(self.fws(i), "montuewedthufrisatsun") {
            i0 = self.lit(j, b',')?;
            dow = Some(d);
        }
        let i = self.fws(i0);
        let j = self.run(i, |c| c.is_ascii_digit());
        if j == i || j > i + 2 {
            return None;
        }
        let day: u8 = std::str::from_utf8(&self.b[i..j]).unwrap().parse().unwrap();
        if day < 1 || day > 31 {
            return None;
        }
        let i = self.fws1(j)?;
        let (i, mon) = self.name3(i, "janfebmaraprmayjunjulaugsepoctnovdec")?;
        let i = self.fws1(i)?;
        let j = self.run(i, |c| c.is_ascii_digit());
        if j < i + 4 {
            return None;
        }
        let digits = std::str::from_utf8(&self.b[i..j]).unwrap();
        let year: u64 = match digits.parse() {
            Ok(y) => y,
            Err(_) => {
                self.gray = true;
                return None;
            }
        };
        if year < 1900 {
            return None;
        }
        let i = self.fws1(j)?;
        let (i, h) = self.two(i)?;
        let i = self.lit(i, b':')?;
        let (i, m) = self.two(i)?;
        let (i, s) = match self.lit(i, b':') {
            Some(i) => self.two(i)?,
            None => (i, 0),
        };
        if h > 23 || m > 59 || s > 60 {
            return None;
        }
        let i = self.fws1(i)?;
        let plus = match self.at(i)? {
            b'+' => true,
            b'-' => false,
            _ => return None,
        };
        let (i, zh) = self.two(i + 1)?;
        let (i, zm) = self.two(i)?;
        if zm > 59 {
            return None;
        }
        Some((self.cfws(i), DT { dow, day, mon, year, h, m, s, plus, zh, zm }))
    }
    fn keywords(&mut self, i: usize) -> R<Vec<Vec<S>>> {
        self.list(i, |p, i| p.phrase(i))
    }
    fn return_path(&mut self, i: usize) -> R<Option<Addr>> {
        if let Some((i, a)) = self.angle_addr(i) {
            return Some((i, Some(a)));
        }
        let i = self.lit(self.cfws(i), b'<')?;
        let i = self.lit(self.cfws(i), b'>')?;
        Some((self.cfws(i), None))
    }
    fn received(&mut self, i: usize) -> R<(Vec<Tok>, DT)> {
        let mut v = Vec::new();
        let mut i = i;
        loop {
            if let Some((j, a)) = self.addr_spec(i) {
                v.push(Tok::Addr(a));
                i = j;
            } else if let Some((j, d)) = self.dot_atom(i) {
                if d.t.contains(&b'.') {
                    v.push(Tok::Domain(d));
                } else {
                    v.push(Tok::Word(d));
                }
                i = j;
            } else if let Some((j, w)) = self.quoted_string(i) {
                v.push(Tok::Word(w));
                i = j;
            } else if let Some((j, a)) = self.angle_addr(i) {
                v.push(Tok::Addr(a));
                i = j;
            } else if let Some((j, d)) = self.domain_literal(i) {
                v.push(Tok::Domain(d));
                i = j;
            } else {
                break;
            }
        }
        if v.is_empty() && self.cfws(i) > i {
            // CFWS without any token before the `;`
            self.gray = true;
            return None;
        }
        let i = self.lit(i, b';')?;
        let (i, d) = self.date_time(i)?;
        Some((i, (v, d)))
    }
    // ------------------------------------------------ MIME
    fn token(&self, i: usize) -> R<S> {
        let j = self.run(i, ttext);
        if j == i {
            return None;
        }
        Some((j, S { t: self.b[i..j].to_vec(), p: self.base.map(|b| Prov::In(b + i)).unwrap_or(Prov::Any) }))
    }
    fn number8(&self, i: usize) -> R<u8> {
        let j = self.run(i, |c| c.is_ascii_digit());
        std::str::from_utf8(&self.b[i..j]).unwrap().parse().ok().map(|n| (j, n))
    }
    fn mime_version(&mut self, i: usize) -> R<(u8, u8)> {
        let (i, a) = self.number8(self.cfws(i))?;
        let i = self.lit(self.cfws(i), b'.')?;
        let (i, b) = self.number8(self.cfws(i))?;
        Some((self.cfws(i), (a, b)))
    }
    /// raw parameters: (name with its stars, in lowercase; value; was quoted; range of the quoted content)
    fn raw_params(&mut self, mut i: usize) -> R<Vec<RawParam>> {
        let mut v = Vec::new();
        loop {
            let Some(j) = self.lit(self.cfws(i), b';') else { break };
            let Some((j, name)) = self.token(self.cfws(j)) else { break };
            if self.cfws(j) > j && self.lit(self.cfws(j), b'=').is_some() {
                self.gray = true;
            }
            let Some(j) = self.lit(j, b'=') else { break };
            if self.cfws(j) > j {
                // white space or comments next to the `=`
                self.gray = true;
            }
            let (k, value, quoted) = match self.token(j) {
                Some((k, t)) => (k, t, None),
                None => {
                    let q = self.cfws(j);
                    match self.quoted_content(q) {
                        Some((k, s)) => (self.cfws(k), s, Some((q + 1, k - 1))),
                        None => break,
                    }
                }
            };
            v.push(RawParam { name: lowered(name), value, quoted });
            i = k;
        }
        Some((i, v))
    }
    fn collect(&mut self, raw: Vec<RawParam>) -> Params {
        let mut out = Params::new();
        // base name -> index -> (encoded, value)
        let mut segs: std::collections::BTreeMap<Vec<u8>, std::collections::BTreeMap<u32, (bool, Vec<u8>)>> = Default::default();
        for r in raw {
            let n = &r.name.t;
            let Some(star) = n.iter().position(|c| *c == b'*') else {
                if out.insert(r.name, r.value).is_some() {
                    self.gray = true;
                }
                continue;
            };
            let base = n[..star].to_vec();
            let mut rest = &n[star..];
            let mut enc = false;
            if rest.ends_with(b"*") {
                enc = true;
                rest = &rest[..rest.len() - 1];
            }
            if base.is_empty() {
                self.gray = true;
                continue;
            }
            if enc && r.quoted.is_some() {
                self.gray = true;
            }
            if rest.is_empty() {
                // name*=charset'lang'value
                let Some((cs, data)) = ext_split(&r.value.t) else {
                    self.gray = true;
                    continue;
                };
                let v = self.ext_decode(&cs, &[(true, data)]);
                if out.insert(S::any(base), S::any(v)).is_some() {
                    self.gray = true;
                }
                continue;
            }
            let num = &rest[1..];
            let ok = rest[0] == b'*' && !num.is_empty() && num.iter().all(|c| c.is_ascii_digit());
            if !ok || (num[0] == b'0' && num.len() > 1) || num.len() > 3 {
                self.gray = true;
                continue;
            }
            let idx: u32 = std::str::from_utf8(num).unwrap().parse().unwrap();
            if idx > 255 {
                self.gray = true;
                continue;
            }
            if segs.entry(base).or_default().insert(idx, (enc, r.value.t)).is_some() {
                self.gray = true;
            }
        }
        for (base, m) in segs {
            let mut list = Vec::new();
            for k in 0.. {
                match m.get(&k) {
                    Some(x) => list.push(x.clone()),
                    None => break,
                }
            }
            if list.is_empty() {
                // no first segment: nothing is there to be reassembled
                continue;
            }
            let v = if list[0].0 {
                match ext_split(&list[0].1) {
                    Some((cs, data)) => {
                        list[0].1 = data;
                        self.ext_decode(&cs, &list)
                    }
                    None => {
                        self.gray = true;
                        continue;
                    }
                }
            } else {
                if list.iter().any(|x| x.0) {
                    self.gray = true;
                }
                list.concat_values()
            };
            if out.insert(S::any(base), S::any(v)).is_some() {
                self.gray = true;
            }
        }
        out
    }
    fn ext_decode(&mut self, cs: &[u8], list: &[(bool, Vec<u8>)]) -> Vec<u8> {
        if !charset_known(cs) {
            return list.iter().flat_map(|x| x.1.clone()).collect();
        }
        let mut bytes = Vec::new();
        for (enc, v) in list {
            if !enc {
                bytes.extend_from_slice(v);
                continue;
            }
            let mut i = 0;
            while i < v.len() {
                if v[i] == b'%' {
                    match (v.get(i + 1).and_then(|c| hex(*c)), v.get(i + 2).and_then(|c| hex(*c))) {
                        (Some(a), Some(b)) => {
                            bytes.push(a * 16 + b);
                            i += 3;
                            continue;
                        }
                        _ => self.gray = true,
                    }
                }
                bytes.push(v[i]);
                i += 1;
            }
        }
        match decode_charset(&bytes, cs) {
            Dec::Ok(s) => s.into_bytes(),
            _ => {
                self.gray = true;
                bytes
            }
        }
    }
    fn content_type(&mut self, i: usize) -> R<Item> {
        let (i, ty) = self.token(self.cfws(i))?;
        if self.cfws(i) > i {
            let k = self.cfws(i);
            if self.at(k) == Some(b'/') {
                self.gray = true;
            }
        }
        let i = self.lit(i, b'/')?;
        if self.cfws(i) > i {
            self.gray = true;
        }
        let (i, sub) = self.token(i)?;
        let (i, raw) = self.raw_params(i)?;
        let params = self.collect(raw);
        Some((self.cfws(i), Item::ContentType { ty: kw_of(ty, TYPES), sub: lowered(sub), params }))
    }
    fn content_disposition(&mut self, i: usize) -> R<Disp> {
        let (i, ty) = self.token(self.cfws(i))?;
        let (i, raw) = self.raw_params(i)?;
        let mut d = Disp { kind: kw_of(ty, DISPS), filename: None, creation: None, modification: None, read: None, params: Params::new() };
        let mut seen: Vec<Vec<u8>> = Vec::new();
        let mut rest = Vec::new();
        for r in raw {
            let base: Vec<u8> = r.name.t.split(|c| *c == b'*').next().unwrap().to_vec();
            let plain = base == r.name.t;
            let date = matches!(&base[..], b"creation-date" | b"modification-date" | b"read-date");
            if (date || base == b"filename") && (plain || date) {
                if seen.contains(&base) {
                    self.gray = true;
                }
                seen.push(base.clone());
            }
            if date && !plain {
                self.gray = true;
            }
            if plain && date {
                if let Some((a, b)) = r.quoted {
                    if self.b[a..b].iter().any(|c| b"\\(".contains(c)) {
                        self.gray = true;
                    }
                    let mut q = P { b: self.b, end: b, base: self.base, f: self.f, gray: false };
                    let dt = match q.date_time(a) {
                        Some((e, dt)) if e == b => Some(dt),
                        _ => None,
                    };
                    self.gray |= q.gray;
                    if let Some(dt) = dt {
                        match &base[..] {
                            b"creation-date" => d.creation = Some(dt),
                            b"modification-date" => d.modification = Some(dt),
                            _ => d.read = Some(dt),
                        }
                        continue;
                    }
                }
            }
            rest.push(r);
        }
        d.params = self.collect(rest);
        d.filename = d.params.remove(&b"filename"[..]);
        Some((self.cfws(i), d))
    }
    fn cte(&mut self, i: usize) -> R<Kw> {
        let (i, t) = self.token(self.cfws(i))?;
        Some((self.cfws(i), kw_of(t, CTES)))
    }
    // ------------------------------------------------ free text
    /// None: the value is not free text. (text, gray)
    pub fn free_text(&self, mut i: usize, decode: bool) -> Option<(S, bool)> {
        let mut o = Acc::new();
        let mut gray = false;
        let mut prev = false;
        loop {
            let j = self.fws(i);
            if j == self.end {
                // *WSP only: a fold here would make an empty line
                if self.b[i..j].iter().any(|c| !wsp(*c)) {
                    return None;
                }
                break;
            }
            if !vchar(self.b[j]) {
                return None;
            }
            let ws = |o: &mut Acc| {
                let k = self.run(i, wsp);
                o.range(self, i, k);
                if k < j {
                    o.range(self, k + 2, j);
                }
            };
            if decode {
                match encoded_word(&self.b[..self.end], j, false) {
                    Ew::Yes { end, text } => {
                        if !prev {
                            ws(&mut o);
                        }
                        o.other(text.as_bytes());
                        prev = true;
                        i = end;
                        continue;
                    }
                    Ew::Gray => gray = true,
                    Ew::No => {}
                }
            }
            ws(&mut o);
            let k = self.run(j, vchar);
            o.range(self, j, k);
            i = k;
            prev = false;
        }
        Some((o.done(self), gray))
    }
    /// the structured reading of a known header
    pub fn item(&mut self, name: &str, i: usize) -> Option<Item> {
        let r = match name {
            "date" => self.date_time(i).map(|(i, v)| (i, Item::Date(v))),
            "from" => self.mailboxes(i).map(|(i, v)| (i, Item::From(v))),
            "sender" => self.mailbox(i).map(|(i, v)| (i, Item::Sender(v))),
            "reply-to" => self.addresses(i).map(|(i, v)| (i, Item::ReplyTo(v))),
            "to" => self.addresses(i).map(|(i, v)| (i, Item::To(v))),
            "cc" => self.addresses(i).map(|(i, v)| (i, Item::Cc(v))),
            "bcc" => match self.addresses(i) {
                Some((i, v)) => Some((i, Item::Bcc(v))),
                None => Some((self.cfws(i), Item::Bcc(vec![]))),
            },
            "message-id" => self.msg_id(i).map(|(i, v)| (i, Item::MessageId(v))),
            "in-reply-to" => self.msg_ids(i).map(|(i, v)| (i, Item::InReplyTo(v))),
            "references" => self.msg_ids(i).map(|(i, v)| (i, Item::References(v))),
            "content-id" => self.msg_id(i).map(|(i, v)| (i, Item::ContentId(v))),
            "keywords" => self.keywords(i).map(|(i, v)| (i, Item::Keywords(v))),
            "mime-version" => self.mime_version(i).map(|(i, (a, b))| (i, Item::MimeVersion(a, b))),
            "content-type" => self.content_type(i),
            "content-transfer-encoding" => self.cte(i).map(|(i, v)| (i, Item::Cte(v))),
            "content-disposition" => self.content_disposition(i).map(|(i, v)| (i, Item::ContentDisposition(v))),
            "subject" | "comments" | "content-description" => {
                let (s, g) = self.free_text(i, self.f.mime)?;
                self.gray |= g;
                Some((
                    self.end,
                    match name {
                        "subject" => Item::Subject(s),
                        "comments" => Item::Comments(s),
                        _ => Item::ContentDescription(s),
                    },
                ))
            }
            _ => None,
        };
        match r {
            Some((e, v)) if e == self.end => Some(v),
            _ => None,
        }
    }
}
trait ConcatValues {
    fn concat_values(&self) -> Vec<u8>;
}
impl ConcatValues for Vec<(bool, Vec<u8>)> {
    fn concat_values(&self) -> Vec<u8> {
        self.iter().flat_map(|x| x.1.clone()).collect()
    }
}
struct RawParam {
    name: S,
    value: S,
    quoted: Option<(usize, usize)>,
}
fn ext_split(v: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let a = v.iter().position(|c| *c == b'\'')?;
    let b = v[a + 1..].iter().position(|c| *c == b'\'')? + a + 1;
    Some((v[..a].to_ascii_lowercase(), v[b + 1..].to_vec()))
}
pub const TYPES: &[&str] = &["text", "image", "audio", "video", "application", "message", "multipart"];
pub const DISPS: &[&str] = &["inline", "attachment"];
pub const CTES: &[&str] = &["7bit", "8bit", "binary", "quoted-printable", "base64"];
pub fn kw(t: &[u8], known: &[&str]) -> Kw {
    kw_of(S::any(t), known)
}
fn kw_of(t: S, known: &[&str]) -> Kw {
    let mut name = lowered(t);
    let known = known.iter().any(|k| k.as_bytes() == &name.t[..]);
    if known {
        name.p = Prov::Any;
    }
    Kw { known, name }
}
/// lowercase names are where they were, others are not
fn lowered(mut s: S) -> S {
    if s.t.iter().any(|c| c.is_ascii_uppercase()) {
        s.t.make_ascii_lowercase();
        s.p = Prov::Any;
    }
    s
}

// ---------------------------------------------------------------- messages
#[derive(Clone, Debug)]
pub struct Line {
    pub start: usize,
    pub colon: usize,
    /// end of the value, before the final CRLF
    pub end: usize,
}
impl Line {
    pub fn name<'a>(&self, b: &'a [u8]) -> &'a [u8] {
        &b[self.start..self.colon]
    }
    pub fn lname(&self, b: &[u8]) -> String {
        String::from_utf8_lossy(self.name(b)).to_ascii_lowercase()
    }
}
/// Header lines of a section starting at 0. None: a line is not a header field.
/// The second value is where the section ends: at the empty line, or at the end of the data.
pub fn split_lines(b: &[u8]) -> Option<(Vec<Line>, usize)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() && !b[i..].starts_with(b"\r\n") {
        let start = i;
        let mut c = i;
        while c < b.len() && ftext(b[c]) {
            c += 1;
        }
        if c == start || b.get(c) != Some(&b':') {
            return None;
        }
        let mut e = c + 1;
        loop {
            if e >= b.len() {
                return None;
            }
            if b[e..].starts_with(b"\r\n") {
                match b.get(e + 2) {
                    Some(x) if wsp(*x) => {
                        e += 3;
                        continue;
                    }
                    _ => break,
                }
            }
            e += 1;
        }
        v.push(Line { start, colon: c, end: e });
        i = e + 2;
    }
    Some((v, i))
}

#[derive(Clone, Debug)]
pub struct MItem {
    pub item: Item,
    pub gray: bool,
    /// lines of the message it covers
    pub lines: (usize, usize),
}
#[derive(Clone, Debug)]
pub struct MMsg {
    pub lines: Vec<Line>,
    pub items: Vec<MItem>,
    pub body: Option<usize>,
}
#[derive(Debug)]
pub enum MRes {
    Reject,
    Gray,
    Ok(MMsg),
}
impl MMsg {
    pub fn gray(&self) -> bool {
        self.items.iter().any(|i| i.gray)
    }
}
fn unknown_item(b: &[u8], l: &Line, base: Option<usize>, f: Feats) -> Option<(Item, bool)> {
    let p = P { b, end: l.end, base, f, gray: false };
    let (value, gray) = p.free_text(l.colon + 1, f.unrec)?;
    Some((Item::Unknown { name: p.sub(l.start, l.colon), value }, gray))
}
/// (item, gray); None: the line is neither a valid known header nor free text
fn line_item(b: &[u8], l: &Line, base: Option<usize>, f: Feats, enabled: bool) -> Option<(Item, bool)> {
    let name = l.lname(b);
    let mut gray = false;
    if enabled {
        let mut p = P { b, end: l.end, base, f, gray: false };
        let it = p.item(&name, l.colon + 1);
        gray = p.gray;
        if let Some(it) = it {
            return Some((it, gray));
        }
    }
    match unknown_item(b, l, base, f) {
        Some((it, g)) => Some((it, g || gray)),
        None if gray => Some((Item::Unknown { name: S::any(""), value: S::any("") }, true)),
        None => None,
    }
}
pub fn message(b: &[u8], f: Feats) -> MRes {
    let Some((lines, end)) = split_lines(b) else { return MRes::Reject };
    // a continuation line of nothing but white space: not in the grammar, though two optional CFWS
    // that follow each other would take one fold each
    for l in &lines {
        let v = &b[l.colon + 1..l.end];
        let blank = v.windows(2).enumerate().filter(|w| w.1 == b"\r\n").any(|(i, _)| {
            let r = &v[i + 2..];
            let n = r.iter().take_while(|c| wsp(**c)).count();
            r[n..].starts_with(b"\r\n")
        });
        if blank {
            let n = l.lname(b);
            let free = ["subject", "comments", "content-description"].contains(&&n[..]);
            let trace = f.trace && (n == "received" || n == "return-path" || n.starts_with("resent-"));
            if !free && (trace || f.enabled(&n)) {
                return MRes::Gray;
            }
        }
    }
    let mut items = Vec::new();
    let mut k = 0;
    if f.trace {
        loop {
            let mut t = TraceV { rp: None, recv: vec![], fields: vec![] };
            let mut j = k;
            let mut gray = false;
            if j < lines.len() && lines[j].lname(b) == "return-path" {
                let mut p = P { b, end: lines[j].end, base: Some(0), f, gray: false };
                let r = p.return_path(lines[j].colon + 1);
                gray |= p.gray;
                if let Some((e, r)) = r {
                    if e == lines[j].end {
                        t.rp = Some(r);
                        j += 1;
                    }
                }
            }
            while j < lines.len() && lines[j].lname(b) == "received" {
                let mut p = P { b, end: lines[j].end, base: Some(0), f, gray: false };
                let r = p.received(lines[j].colon + 1);
                gray |= p.gray;
                match r {
                    Some((e, r)) if e == lines[j].end => t.recv.push(r),
                    _ => break,
                }
                j += 1;
            }
            if gray {
                return MRes::Gray;
            }
            if t.recv.is_empty() {
                break;
            }
            while j < lines.len() {
                let n = lines[j].lname(b);
                let Some(n) = n.strip_prefix("resent-") else { break };
                if !["date", "from", "sender", "to", "cc", "bcc", "message-id"].contains(&n) {
                    break;
                }
                let mut p = P { b, end: lines[j].end, base: Some(0), f, gray: false };
                let r = p.item(n, lines[j].colon + 1);
                if p.gray {
                    return MRes::Gray;
                }
                match r {
                    Some(it) => t.fields.push(it),
                    None => break,
                }
                j += 1;
            }
            items.push(MItem { item: Item::Trace(t), gray: false, lines: (k, j) });
            k = j;
        }
    }
    for n in k..lines.len() {
        let l = &lines[n];
        match line_item(b, l, Some(0), f, f.enabled(&l.lname(b))) {
            Some((item, gray)) => items.push(MItem { item, gray, lines: (n, n + 1) }),
            None => return MRes::Reject,
        }
    }
    let mut body = None;
    if end < b.len() {
        body = Some(end + 2);
        if !f.mime && !body_ok(&b[end + 2..]) {
            return MRes::Reject;
        }
    }
    MRes::Ok(MMsg { lines, items, body })
}
pub fn body_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let mut n = 0;
    while i < b.len() {
        if b[i..].starts_with(b"\r\n") {
            n = 0;
            i += 2;
            continue;
        }
        n += 1;
        if n > 998 || b[i] == 0 || b[i] > 127 || b[i] == b'\r' || b[i] == b'\n' {
            return false;
        }
        i += 1;
    }
    true
}

// ---------------------------------------------------------------- emails
#[derive(Debug)]
pub enum ERes {
    Gray,
    /// the message itself is rejected
    Reject,
    /// one of these errors, by lowercase header name
    Err { dup: Vec<String>, missing: Vec<String>, other: bool },
    Ok(EmailV),
}
pub const UNIQUE: &[&str] = &[
    "from", "sender", "subject", "date", "to", "cc", "bcc", "message-id", "in-reply-to", "references", "reply-to", "mime-version",
    "content-type", "content-transfer-encoding", "content-id", "content-description", "content-disposition",
];
pub fn email(b: &[u8], f: Feats, depth: usize) -> ERes {
    let m = match message(b, f) {
        MRes::Reject => return ERes::Reject,
        MRes::Gray => return ERes::Gray,
        MRes::Ok(m) => m,
    };
    if m.gray() {
        return ERes::Gray;
    }
    let body = m.body.map(|i| S { t: b[i..].to_vec(), p: if i < b.len() { Prov::In(i) } else { Prov::Any } });
    collect(m.items.into_iter().map(|i| i.item).collect(), body, f, depth, &mut transfer)
}
/// the email that consists of these items
pub fn collect(items: Vec<Item>, text: Option<S>, f: Feats, depth: usize, transfer: &mut dyn FnMut(S, Option<&Kw>) -> Tr) -> ERes {
    let mut e = EmailV { slots: Default::default(), comments: vec![], keywords: vec![], trace: vec![], unknown: vec![], body: None, ent: None };
    let mut dup = Vec::new();
    let mut cte = None;
    for it in items {
        match it {
            Item::Comments(s) => e.comments.push(s),
            Item::Keywords(k) => e.keywords.extend(k),
            Item::Trace(t) => e.trace.push(t),
            Item::Unknown { name, value } => e.unknown.push((name, value)),
            it => {
                let k = it.kind();
                if let Item::Cte(c) = &it {
                    cte = Some(c.clone());
                }
                if e.slots.insert(k, it).is_some() {
                    dup.push(k.to_string());
                }
            }
        }
    }
    let mut missing = Vec::new();
    if f.from && !e.slots.contains_key("from") {
        missing.push("from".to_string());
    }
    if f.date && !e.slots.contains_key("date") {
        missing.push("date".to_string());
    }
    if f.sender && !e.slots.contains_key("sender") {
        match e.slots.get("from") {
            Some(Item::From(v)) if v.len() == 1 => {
                let s = Item::Sender(v[0].clone());
                e.slots.insert("sender", s);
            }
            None if f.from => {}
            _ => missing.push("sender".to_string()),
        }
    }
    let mut other = false;
    if f.mime {
        let has_body = text.is_some();
        let body: S = text.unwrap_or(S::any(""));
        match transfer(body, cte.as_ref()) {
            Tr::Gray => return ERes::Gray,
            Tr::Err => {
                // without a body there is nothing to decode
                if has_body {
                    other = true;
                }
                e.ent = None;
            }
            Tr::Ok(value) => {
                let mut ent = default_ent();
                ent.value = value;
                if let Some(Item::ContentType { ty, sub, params }) = e.slots.get("content-type") {
                    ent.ty = ty.clone();
                    ent.sub = sub.clone();
                    ent.params = params.clone();
                }
                if let Some(Item::ContentId(i)) = e.slots.get("content-id") {
                    ent.id = Some(i.clone());
                }
                if let Some(Item::ContentDescription(d)) = e.slots.get("content-description") {
                    ent.desc = Some(d.clone());
                }
                if let Some(Item::ContentDisposition(d)) = e.slots.get("content-disposition") {
                    ent.disp = Some(d.clone());
                }
                e.ent = Some(ent);
            }
        }
        if !other && e.ent.is_none() {
            let mut ent = default_ent();
            if let Some(Item::ContentType { ty, sub, params }) = e.slots.get("content-type") {
                ent.ty = ty.clone();
                ent.sub = sub.clone();
                ent.params = params.clone();
            }
            ent.id = match e.slots.get("content-id") {
                Some(Item::ContentId(i)) => Some(i.clone()),
                _ => None,
            };
            ent.desc = match e.slots.get("content-description") {
                Some(Item::ContentDescription(i)) => Some(i.clone()),
                _ => None,
            };
            ent.disp = match e.slots.get("content-disposition") {
                Some(Item::ContentDisposition(i)) => Some(i.clone()),
                _ => None,
            };
            e.ent = Some(ent);
        }
    } else {
        e.body = text;
    }
    if !dup.is_empty() || !missing.is_empty() || other {
        return ERes::Err { dup, missing, other };
    }
    for k in ["mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "content-disposition"] {
        e.slots.remove(k);
    }
    if let Some(ent) = e.ent.as_mut() {
        if !decode(ent, f, depth) {
            return ERes::Gray;
        }
    }
    ERes::Ok(e)
}
pub fn default_ent() -> Ent {
    let mut params = Params::new();
    params.insert(S::any("charset"), S::any("us-ascii"));
    Ent {
        ty: kw(b"text", TYPES),
        sub: S::any("plain"),
        desc: None,
        id: None,
        params,
        disp: None,
        value: S::any(""),
        extra: vec![],
        node: None,
    }
}
pub enum Tr {
    Ok(S),
    Err,
    Gray,
}
pub fn transfer(v: S, cte: Option<&Kw>) -> Tr {
    match cte.map(|k| &k.name.t[..]) {
        None | Some(b"7bit") | Some(b"8bit") | Some(b"binary") => Tr::Ok(v),
        Some(b"base64") => {
            let r = b64_decode(&v.t);
            if r.gray {
                return Tr::Gray;
            }
            match r.data {
                Some(d) => Tr::Ok(S::any(d)),
                None => Tr::Err,
            }
        }
        Some(b"quoted-printable") => {
            let (d, g) = qp_decode(&v.t);
            if g {
                Tr::Gray
            } else {
                Tr::Ok(S::any(d))
            }
        }
        _ => Tr::Err,
    }
}
pub enum PartRes {
    Ok(Ent),
    Err,
    Gray,
}
/// one MIME part; `s.p` tells where it lies
pub fn part(s: &S, f: Feats, depth: usize) -> PartRes {
    let b = &s.t;
    let base = match s.p {
        Prov::In(o) => Some(o),
        _ => None,
    };
    let Some((lines, end)) = split_lines(b) else { return PartRes::Gray };
    let mut e = default_ent();
    let mut cte = None;
    let mut seen: Vec<String> = Vec::new();
    let mut bad_cte = false;
    for l in &lines {
        let n = l.lname(b);
        let known = matches!(&n[..], "content-type" | "content-transfer-encoding" | "content-id" | "content-description")
            || (n == "content-disposition" && f.cd);
        let Some((it, gray)) = line_item(b, l, base, f, known) else { return PartRes::Gray };
        if gray {
            return PartRes::Gray;
        }
        if let Item::Unknown { name, value } = it {
            e.extra.push((name, value));
            continue;
        }
        if seen.contains(&n) {
            return PartRes::Gray;
        }
        seen.push(n);
        match it {
            Item::ContentType { ty, sub, params } => {
                e.ty = ty;
                e.sub = sub;
                e.params = params;
            }
            Item::Cte(k) => {
                bad_cte = !k.known;
                cte = Some(k);
            }
            Item::ContentId(i) => e.id = Some(i),
            Item::ContentDescription(d) => e.desc = Some(d),
            Item::ContentDisposition(d) => e.disp = Some(d),
            _ => unreachable!(),
        }
    }
    let _ = bad_cte;
    let body = if end < b.len() {
        let i = end + 2;
        S { t: b[i..].to_vec(), p: match base { Some(o) if i < b.len() => Prov::In(o + i), _ => Prov::Any } }
    } else {
        S::any("")
    };
    e.value = match transfer(body, cte.as_ref()) {
        Tr::Ok(v) => v,
        Tr::Err => return PartRes::Err,
        Tr::Gray => return PartRes::Gray,
    };
    if !decode(&mut e, f, depth) {
        return PartRes::Gray;
    }
    PartRes::Ok(e)
}
/// fills `node`; false: gray
pub fn decode(e: &mut Ent, f: Feats, depth: usize) -> bool {
    if depth == 0 {
        return true;
    }
    let node = match &e.ty.name.t[..] {
        b"multipart" => {
            let Some(bd) = e.params.get(&b"boundary"[..]) else {
                e.node = Some(Box::new(Node::Err));
                return true;
            };
            match multipart(&e.value, &bd.t) {
                MpRes::Gray => return false,
                MpRes::Err => Node::Err,
                MpRes::Ok(ranges) => {
                    let mut parts = Vec::new();
                    let mut err = false;
                    for (a, z) in ranges {
                        let s = S {
                            t: e.value.t[a..z].to_vec(),
                            p: match e.value.p {
                                Prov::In(o) => Prov::In(o + a),
                                _ => Prov::Any,
                            },
                        };
                        match part(&s, f, depth - 1) {
                            PartRes::Gray => return false,
                            PartRes::Err => err = true,
                            PartRes::Ok(p) => parts.push(p),
                        }
                    }
                    if err {
                        Node::Err
                    } else {
                        Node::Multi { sub: e.sub.clone(), parts }
                    }
                }
            }
        }
        b"text" => match e.params.get(&b"charset"[..]) {
            None => Node::Unknown,
            Some(c) => match decode_charset(&e.value.t, &c.lower()) {
                Dec::Ok(s) => {
                    // what is UTF-8 already stays where it is
                    let p = if matches!(&c.lower()[..], b"utf-8" | b"us-ascii") && s.as_bytes() == &e.value.t[..] { e.value.p } else { Prov::Any };
                    Node::Text { sub: e.sub.clone(), value: S { t: s.into_bytes(), p } }
                }
                Dec::Err => Node::Err,
                Dec::Unknown => Node::Unknown,
                Dec::Gray => return false,
            },
        },
        _ => Node::Unknown,
    };
    e.node = Some(Box::new(node));
    true
}
pub enum MpRes {
    Gray,
    Err,
    Ok(Vec<(usize, usize)>),
}
pub fn multipart(v: &S, bd: &[u8]) -> MpRes {
    let b = &v.t;
    if bd.is_empty() || bd.contains(&b'\r') || bd.contains(&b'\n') {
        return MpRes::Gray;
    }
    let mut parts: Vec<(usize, usize)> = Vec::new();
    let mut open: Option<usize> = None;
    let mut i = 0;
    loop {
        // i is the start of a line
        if b[i..].starts_with(b"--") && b[i + 2..].starts_with(bd) {
            let after = i + 2 + bd.len();
            let close = b[after..].starts_with(b"--");
            let tail = if close { after + 2 } else { after };
            let mut t = tail;
            while t < b.len() && wsp(b[t]) {
                t += 1;
            }
            let eol = b[t..].starts_with(b"\r\n");
            let eof = t == b.len();
            if (eol || (eof && close)) && t > tail {
                return MpRes::Gray; // transport padding
            }
            if eof && !close {
                return MpRes::Gray; // a delimiter without its line end
            }
            if eol || (eof && close) {
                match open {
                    Some(s) => {
                        if i < s + 2 {
                            return MpRes::Gray; // shares the line break of the previous one
                        }
                        parts.push((s, i - 2));
                    }
                    None if close => return MpRes::Gray,
                    None => {}
                }
                if close {
                    return MpRes::Ok(parts);
                }
                open = Some(t + 2);
            }
        }
        match b[i..].windows(2).position(|w| w == b"\r\n") {
            Some(k) => i += k + 2,
            None => return MpRes::Err,
        }
    }
}
