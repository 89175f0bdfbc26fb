//! Constructive generators: they write bytes and return the value those bytes stand for.
use crate::model;
use crate::tables;
use crate::tape::Src;
use crate::types::*;

/// characters that text handling tends to treat in a special way
const NOTABLE: [u32; 40] = [
    0xfeff, 0x80, 0x85, 0xa0, 0xad, 0xdf, 0xe9, 0x130, 0x131, 0x17f, 0x301, 0x378, 0x7ff, 0x800, 0x1e9e, 0x200b, 0x200d, 0x200e, 0x2019, 0x2028, 0x2029, 0x202e, 0x2060, 0x20ac, 0x212a, 0x3000,
    0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfdd0, 0xff0f, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff,
];
pub const CHARSETS: [&str; 19] = [
    "utf-8", "us-ascii", "iso-8859-1", "iso-8859-15", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-6",
    "iso-8859-7", "iso-8859-8", "iso-8859-9", "iso-8859-10", "iso-8859-11", "iso-8859-13", "iso-8859-14", "iso-8859-16",
    "iso-6937", "gb2312",
];

/// what real messages say, where a special case could hide
pub const USUAL_SUBTYPES: [&str; 24] = [
    "plain", "html", "mixed", "alternative", "related", "digest", "report", "signed", "encrypted", "form-data", "parallel", "byteranges",
    "rfc822", "partial", "external-body", "delivery-status", "global", "octet-stream", "pdf", "json", "pgp-signature", "png", "calendar", "x-test",
];
pub const USUAL_TOKENS: [&str; 30] = [
    "plain", "html", "mixed", "us-ascii", "utf-8", "UTF-8", "US-ASCII", "ISO-8859-1", "utf8", "ascii", "latin1", "windows-1252", "koi8-r", "flowed", "fixed", "yes",
    "no", "true", "base64", "7bit", "8bit", "binary", "quoted-printable", "attachment", "inline", "form-data", "a.txt", "report.pdf", "0", "1",
];
pub const USUAL_ATOMS: [&str; 28] = [
    "root", "postmaster", "MAILER-DAEMON", "localhost", "example", "com", "org", "undisclosed-recipients", "Re", "Fwd", "mail", "www", "info", "noreply",
    "no-reply", "Mr", "van", "de", "John", "from", "by", "with", "for", "id", "via", "SMTP", "ESMTP", "NIL",
];
pub const USUAL_QUOTED: [&str; 22] = [
    "", " ", "a b.txt", "../../etc/passwd", "C:\\dir\\file.txt", "/tmp/x", "a;b", "a=b", "x\"y", "=?utf-8?Q?x?=", "Doe, John", "John Q. Public", "John", "john.doe",
    "a@b.c", "<a@b.c>", "..", ".", "%41", "utf-8''x", "Mon, 5 May 2003 18:58:34 +0000", "----=_Part_1",
];
pub const USUAL_WORDS: [&str; 20] = [
    "Re:", "RE:", "Fwd:", "AW:", "[list]", "(no", "=?", "?=", "=?utf-8?Q?x?=", "=?=", "http://example.com/?a=b", "user@example.com", "<a@b.c>", "=20", "=", "--", "...", "\"quoted\"", "\\", "%20",
];

#[derive(Clone, Copy)]
pub struct Knobs {
    /// percent chance of CFWS at each place that allows it
    pub cf: u32,
    /// percent chance that a word of a phrase or text is an encoded word
    pub ew: u32,
    /// words may be encoded
    pub mime: bool,
}
impl Knobs {
    pub fn plain() -> Knobs {
        Knobs { cf: 0, ew: 0, mime: false }
    }
}

pub struct Gen<'s, 'd> {
    pub s: &'s mut Src<'d>,
    pub o: Vec<u8>,
    pub k: Knobs,
    /// something was written whose reading is left to the model
    pub unsure: bool,
    /// places of optional (and replaceable) comments and folds
    pub cuts: Vec<Cut>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CutKind {
    /// optional CFWS
    Cf,
    /// optional FWS
    Fw,
    /// CFWS that may be replaced but not removed
    Req,
    /// FWS that may be replaced but not removed
    FwsReq,
}
#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub a: usize,
    pub z: usize,
    pub kind: CutKind,
}

fn any(t: impl Into<Vec<u8>>) -> S {
    S::any(t)
}
const ATEXT_SP: &[u8] = b"!#$%&'*+-/=?^_`{|}~";
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

impl<'s, 'd> Gen<'s, 'd> {
    pub fn new(s: &'s mut Src<'d>, k: Knobs) -> Gen<'s, 'd> {
        Gen { s, o: Vec::new(), k, unsure: false, cuts: Vec::new() }
    }
    pub fn put(&mut self, t: &[u8]) {
        self.o.extend_from_slice(t);
    }
    fn ends_ws(&self) -> bool {
        matches!(self.o.last(), Some(b' ') | Some(b'\t'))
    }
    pub fn wsps(&mut self, min: usize) {
        let n = min + self.s.count(1, 6, 400);
        for _ in 0..n {
            let t = self.s.pct(25);
            self.o.push(if t { b'\t' } else { b' ' });
        }
    }
    /// one FWS, unless the output already ends with one
    pub fn fws(&mut self) {
        if self.ends_ws() {
            // what is there is needed
            while self.cuts.last().map(|c| c.z == self.o.len()).unwrap_or(false) {
                self.cuts.pop();
            }
            return;
        }
        match self.s.weighted(&[6, 2, 3, 2]) {
            0 => self.put(b" "),
            1 => self.wsps(1),
            2 => {
                self.put(b"\r\n");
                self.wsps(1);
            }
            _ => {
                self.wsps(1);
                self.put(b"\r\n");
                self.wsps(1);
            }
        }
    }
    pub fn comment(&mut self, depth: u32) {
        self.put(b"(");
        let n = self.s.count(2, 12, 300);
        for _ in 0..n {
            if self.s.pct(30) {
                self.fws();
            }
            match self.s.weighted(&[6, 2, if depth > 0 { 2 } else { 0 }]) {
                0 => {
                    let n = 1 + self.s.count(3, 20, 60);
                    let mut run = Vec::new();
                    for _ in 0..n {
                        let c = if self.s.pct(60) { *self.s.pick(ALNUM) } else { self.s.range(33, 126) as u8 };
                        run.push(if model::ctext(c) { c } else { b'c' });
                    }
                    self.s.stretch(&mut run, 140_000);
                    self.put(&run);
                }
                1 => {
                    self.put(b"\\");
                    let c = self.escapable();
                    self.o.push(c);
                }
                _ => self.comment(depth - 1),
            }
        }
        if self.s.pct(20) {
            self.fws();
        }
        self.put(b")");
    }
    /// comments nested deeper than any fixed-size counter or stack would like
    fn deep_comment(&mut self) {
        let n = match self.s.below(4) {
            0 => 250 + self.s.below(20),
            1 => 120 + self.s.below(20),
            2 => self.s.below(2000),
            _ => 65530 + self.s.below(10),
        };
        // deeper than 16 bits only rarely: every later pass walks it
        let n = if n > 2000 && !self.s.pct(2) { 256 + n % 5 } else { n } as usize;
        for i in 0..n {
            self.put(b"(");
            if i % 64 == 63 {
                self.put(b"x");
            }
        }
        self.put(b"y");
        for i in 0..n {
            self.put(b")");
            if i % 100 == 99 && i + 1 < n {
                self.put(b" z ");
            }
        }
    }
    fn escapable(&mut self) -> u8 {
        match self.s.weighted(&[3, 3, 2, 1]) {
            0 => *self.s.pick(b"\\\"()@<>,;:. "),
            1 => self.s.range(32, 126) as u8,
            2 => *self.s.pick(ALNUM),
            _ => b'\t',
        }
    }
    pub fn cfws_req(&mut self) {
        let n = self.s.weighted(&[6, 4, 1]);
        if n == 0 {
            self.fws();
            if !self.ends_ws() {
                self.put(b" ");
            }
            return;
        }
        for _ in 0..n {
            if self.s.pct(50) {
                self.fws();
            }
            if self.s.below(400) == 399 && !self.s.over(20_000) {
                self.deep_comment();
                continue;
            }
            let d = self.s.below(4);
            self.comment(d);
        }
        if self.s.pct(50) {
            self.fws();
        }
    }
    /// optional CFWS
    pub fn cf(&mut self) {
        let a = self.o.len();
        if self.k.cf > 0 && self.s.pct(self.k.cf) {
            self.cfws_req();
        }
        self.cut(a, CutKind::Cf);
    }
    fn cut(&mut self, a: usize, kind: CutKind) {
        let z = self.o.len();
        self.cuts.push(Cut { a, z, kind });
    }
    /// CFWS that separates two tokens
    pub fn cfws_sep(&mut self) {
        let a = self.o.len();
        self.cfws_req();
        if self.o.len() > a {
            self.cut(a, CutKind::Req);
        }
    }
    /// FWS that the grammar requires
    pub fn fws_sep(&mut self) {
        let a = self.o.len();
        self.fws();
        if self.o.len() > a {
            self.cut(a, CutKind::FwsReq);
        }
    }
    /// optional FWS
    pub fn fw(&mut self) {
        let a = self.o.len();
        if self.k.cf > 0 && self.s.pct(self.k.cf) {
            self.fws();
        }
        self.cut(a, CutKind::Fw);
    }
    pub fn atext_char(&mut self) -> u8 {
        if self.s.pct(20) {
            *self.s.pick(ATEXT_SP)
        } else {
            *self.s.pick(ALNUM)
        }
    }
    pub fn atom_bytes(&mut self) -> Vec<u8> {
        let mut v = Vec::new();
        if self.s.dict(4) {
            v = self.s.dict_bytes(40, model::atext);
        } else if self.s.pct(3) {
            v = self.s.pick(&USUAL_ATOMS[..]).as_bytes().to_vec();
        }
        if v.is_empty() {
            let n = 1 + self.s.count(4, 80, 300);
            for _ in 0..n {
                let c = self.atext_char();
                v.push(c);
            }
            self.s.stretch(&mut v, 140_000);
        }
        if v.windows(2).any(|w| w == b"=?") {
            self.unsure = true;
        }
        v
    }
    pub fn token_bytes(&mut self) -> Vec<u8> {
        let mut v = Vec::new();
        if self.s.dict(6) {
            v = self.s.dict_bytes(40, model::ttext);
        } else if self.s.pct(7) {
            return self.s.pick(&USUAL_TOKENS[..]).as_bytes().to_vec();
        }
        if v.is_empty() {
            let n = 1 + self.s.count(4, 60, 300);
            for _ in 0..n {
                let c = if self.s.pct(15) { *self.s.pick(b"!#$%&'*+-.^_`{|}~") } else { *self.s.pick(ALNUM) };
                v.push(c);
            }
            self.s.stretch(&mut v, 140_000);
        }
        v
    }
    pub fn dot_atom_bytes(&mut self) -> Vec<u8> {
        let mut v = self.atom_bytes();
        for _ in 0..self.s.count(1, 20, 300) {
            v.push(b'.');
            let w = self.atom_bytes();
            v.extend(w);
        }
        v
    }
    /// a quoted string with the given content (must be printable ASCII and white space)
    pub fn quote(&mut self, t: &[u8]) {
        self.put(b"\"");
        let folds = self.k.cf;
        for (i, &c) in t.iter().enumerate() {
            let must = c == b'"' || c == b'\\';
            if must || self.s.pct(6) {
                self.o.push(b'\\');
            } else if model::wsp(c) && folds > 0 && (i == 0 || !model::wsp(t[i - 1])) && self.s.pct(15) {
                // the run of white space starts a folded line
                self.put(b"\r\n");
            }
            self.o.push(c);
        }
        self.put(b"\"");
    }
    pub fn quoted_bytes(&mut self) -> Vec<u8> {
        if self.s.dict(5) {
            return self.s.dict_bytes(40, |c| model::vchar(c) || model::wsp(c));
        }
        if self.s.pct(4) {
            return self.s.pick(&USUAL_QUOTED[..]).as_bytes().to_vec();
        }
        let n = self.s.count(5, 100, 400);
        let mut v = Vec::new();
        for _ in 0..n {
            let c = match self.s.weighted(&[6, 2, 3, 1]) {
                0 => *self.s.pick(ALNUM),
                1 => b' ',
                2 => self.s.range(32, 126) as u8,
                _ => *self.s.pick(b"\"\\\t@.,;:<>()"),
            };
            v.push(c);
        }
        self.s.stretch(&mut v, 140_000);
        v
    }
    pub fn quoted(&mut self) -> S {
        let v = self.quoted_bytes();
        self.quote(&v);
        any(v)
    }
    /// a word, without surrounding CFWS. bool: may stand next to another word without white space
    fn word_core(&mut self) -> (S, u8) {
        if self.k.mime && self.k.ew > 0 && self.s.pct(self.k.ew) {
            if let Some(t) = self.encoded_word(true) {
                return (any(t), 2);
            }
        }
        if self.s.pct(25) {
            (self.quoted(), 1)
        } else {
            let v = self.atom_bytes();
            self.put(&v);
            (any(v), 0)
        }
    }
    pub fn phrase(&mut self) -> Vec<S> {
        let n = 1 + self.s.count(1, 12, 300);
        let mut v = Vec::new();
        self.cf();
        let mut prev = 9u8;
        for _ in 0..n {
            // 0 atom, 1 quoted, 2 encoded: decide the separator before the word is known
            let at = self.o.len();
            let (w, kind) = self.word_core();
            if prev != 9 || kind == 2 {
                let sep_needed = kind == 2 || prev == 2 || (kind == 0 && prev == 0);
                let word = self.o.split_off(at);
                if kind == 2 || prev == 2 {
                    if at > 0 && self.o[at - 1] != b':' || self.s.pct(50) {
                        self.fws();
                    }
                } else if sep_needed {
                    self.cfws_sep();
                    if self.o.len() == at && !self.ends_ws() {
                        self.put(b" ");
                    }
                } else {
                    self.cf();
                }
                self.put(&word);
            }
            prev = kind;
            v.push(w);
        }
        if prev == 2 {
            self.fws();
        }
        self.cf();
        v
    }
    pub fn local_part(&mut self) -> S {
        if self.s.pct(25) {
            self.quoted()
        } else {
            let v = self.dot_atom_bytes();
            self.put(&v);
            any(v)
        }
    }
    pub fn domain(&mut self) -> S {
        if self.s.pct(20) {
            self.put(b"[");
            let mut v = Vec::new();
            for _ in 0..self.s.size(2, 6) {
                self.fw();
                for _ in 0..1 + self.s.size(4, 30) {
                    let c = self.s.range(33, 126) as u8;
                    let c = if model::dtext(c) { c } else { b'1' };
                    v.push(c);
                    self.o.push(c);
                }
            }
            self.fw();
            self.put(b"]");
            any(v)
        } else {
            let v = self.dot_atom_bytes();
            self.put(&v);
            any(v)
        }
    }
    pub fn addr_spec(&mut self) -> Addr {
        self.cf();
        let local = self.local_part();
        self.cf();
        self.put(b"@");
        self.cf();
        let domain = self.domain();
        self.cf();
        Addr { local, domain }
    }
    pub fn angle_addr(&mut self) -> Addr {
        self.cf();
        self.put(b"<");
        let a = self.addr_spec();
        self.put(b">");
        self.cf();
        a
    }
    pub fn mailbox(&mut self) -> Mbox {
        match self.s.weighted(&[3, 4, 2]) {
            0 => Mbox { name: None, addr: self.addr_spec() },
            1 => {
                let name = self.phrase();
                Mbox { name: Some(name), addr: self.angle_addr() }
            }
            _ => Mbox { name: None, addr: self.angle_addr() },
        }
    }
    fn count(&mut self, min: usize) -> usize {
        min + if self.s.pct(3) { self.s.size(20, 60) } else { self.s.count(1, 8, 300) }
    }
    pub fn mailboxes(&mut self) -> Vec<Mbox> {
        let n = self.count(1);
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.put(b",");
            }
            v.push(self.mailbox());
        }
        v
    }
    pub fn address(&mut self) -> Address {
        if self.s.pct(25) {
            let name = self.phrase();
            self.put(b":");
            let v = if self.s.pct(30) {
                self.cf();
                vec![]
            } else {
                self.mailboxes()
            };
            self.put(b";");
            self.cf();
            Address::G(name, v)
        } else {
            Address::M(self.mailbox())
        }
    }
    pub fn addresses(&mut self) -> Vec<Address> {
        let n = self.count(1);
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.put(b",");
            }
            v.push(self.address());
        }
        v
    }
    pub fn msg_id(&mut self) -> Id {
        self.cf();
        self.put(b"<");
        let l = self.dot_atom_bytes();
        self.put(&l);
        self.put(b"@");
        let r = if self.s.pct(25) {
            self.put(b"[");
            let mut v = Vec::new();
            for _ in 0..self.s.count(5, 40, 300) {
                let c = self.s.range(33, 126) as u8;
                v.push(if model::dtext(c) { c } else { b'1' });
            }
            self.s.stretch(&mut v, 140_000);
            self.put(&v);
            self.put(b"]");
            v
        } else {
            let v = self.dot_atom_bytes();
            self.put(&v);
            v
        };
        self.put(b">");
        self.cf();
        (any(l), any(r))
    }
    pub fn msg_ids(&mut self) -> Vec<Id> {
        let n = self.count(1);
        (0..n).map(|_| self.msg_id()).collect()
    }
    pub fn case_mix(&mut self, t: &[u8]) -> Vec<u8> {
        match self.s.weighted(&[5, 1, 1, 2]) {
            0 => t.to_vec(),
            1 => t.to_ascii_uppercase(),
            2 => t.to_ascii_lowercase(),
            _ => t.iter().map(|c| if self.s.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        }
    }
    pub fn dt_value(&mut self) -> DT {
        let s = &mut self.s;
        let year = match s.weighted(&[6, 2, 2]) {
            0 => s.number(1900, 2100) as u64,
            1 => s.number(1900, 9999) as u64,
            _ => s.number(9999, 4_000_000_000) as u64,
        };
        DT {
            dow: if s.pct(60) { Some(s.range(1, 7) as u8) } else { None },
            day: s.number(1, 31) as u8,
            mon: s.range(1, 12) as u8,
            year,
            h: s.number(0, 23) as u8,
            m: s.number(0, 59) as u8,
            s: if s.pct(70) { s.number(0, 60) as u8 } else { 0 },
            plus: !s.pct(40),
            zh: s.number(0, 99) as u8,
            zm: s.number(0, 59) as u8,
        }
    }
    /// writes a date-time; `d` may be out of range
    pub fn put_dt(&mut self, d: &DT, comments: bool) {
        const DOW: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
        const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        self.fw();
        if let Some(w) = d.dow {
            let n = self.case_mix(DOW[(w as usize + 6) % 7].as_bytes());
            self.put(&n);
            self.put(b",");
            if !self.s.pct(15) {
                self.fws_sep();
            }
        }
        let day = if d.day < 10 && !self.s.pct(50) { format!("{}", d.day) } else { format!("{:02}", d.day) };
        self.put(day.as_bytes());
        self.fws_sep();
        let n = self.case_mix(MON[(d.mon as usize + 11) % 12].as_bytes());
        self.put(&n);
        self.fws_sep();
        let pad = if self.s.pct(4) { self.s.range(5, 12) as usize } else { 4 };
        self.put(format!("{:0w$}", d.year, w = pad).as_bytes());
        self.fws_sep();
        self.put(format!("{:02}:{:02}", d.h, d.m).as_bytes());
        if d.s != 0 || self.s.pct(50) {
            self.put(format!(":{:02}", d.s).as_bytes());
        }
        self.fws_sep();
        self.put(format!("{}{:02}{:02}", if d.plus { '+' } else { '-' }, d.zh, d.zm).as_bytes());
        if comments {
            self.cf();
        }
    }
    pub fn date_time(&mut self, comments: bool) -> DT {
        let d = self.dt_value();
        self.put_dt(&d, comments);
        d
    }
    // ------------------------------------------------ text
    /// bytes that the charset defines, and the text they stand for
    pub fn charset_text(&mut self, cs: &str, max: usize, ascii: impl Fn(u8) -> bool) -> (Vec<u8>, String) {
        let n = 1 + self.s.size(4, max.saturating_sub(1) as u32);
        let mut b: Vec<u8> = Vec::new();
        for _ in 0..n {
            let mut lit = Vec::new();
            if (cs == "utf-8" || cs == "us-ascii") && self.s.dict(2) {
                lit = self.s.dict_bytes(12, |c| if c < 128 { ascii(c) } else { cs == "utf-8" });
                if std::str::from_utf8(&lit).is_err() {
                    lit.clear();
                }
            }
            let add: Vec<u8> = if !lit.is_empty() {
                lit
            } else if cs == "us-ascii" || self.s.pct(45) {
                let c = self.s.range(0, 127) as u8;
                vec![if ascii(c) { c } else { b'a' + c % 26 }]
            } else if cs == "utf-8" {
                let c = match self.s.weighted(&[8, 8, 6, 4, 1]) {
                    0 => self.s.range(0x80, 0x7ff),
                    1 => self.s.range(0x800, 0xffff),
                    2 => self.s.range(0x10000, 0x10ffff),
                    3 => *self.s.pick(&NOTABLE[..]),
                    _ => self.s.number(0x80, 0x10ffff),
                };
                char::from_u32(c).unwrap_or('é').to_string().into_bytes()
            } else if cs == "iso-6937" {
                if self.s.pct(50) {
                    vec![self.s.pick(&tables::ISO6937_1[..]).0]
                } else {
                    let x = self.s.pick(&tables::ISO6937_2[..]);
                    vec![x.0, x.1]
                }
            } else if cs == "gb2312" {
                let i = self.s.below(tables::GB2312.len() as u32) as usize;
                if tables::GB2312[i] == 0 {
                    vec![0xa1, 0xa1]
                } else {
                    vec![0xa1 + (i / 94) as u8, 0xa1 + (i % 94) as u8]
                }
            } else {
                let t = tables::ISO8859.iter().find(|x| x.0 == cs).unwrap().1;
                let i = self.s.below(96) as usize;
                if t[i] == 0 {
                    vec![b'u']
                } else {
                    vec![0xa0 + i as u8]
                }
            };
            if b.len() + add.len() > max {
                break;
            }
            b.extend(add);
        }
        if self.s.pct(8) {
            // something at an edge that a careful reader might want to clean
            let t: Vec<u8> = if cs == "utf-8" && self.s.pct(50) {
                let c = *self.s.pick(&NOTABLE[..]);
                char::from_u32(c).unwrap_or('\u{feff}').to_string().into_bytes()
            } else {
                vec![*self.s.pick(b"\0\t\n\r  \x1a\x7f._-=?\"'<>,;:")]
            };
            if t.iter().all(|c| *c > 127 || ascii(*c)) {
                for _ in 0..1 + self.s.size(1, 4) {
                    if b.len() + t.len() > max {
                        break;
                    }
                    if self.s.pct(50) {
                        b.splice(0..0, t.iter().copied());
                    } else {
                        b.extend_from_slice(&t);
                    }
                }
            }
        }
        match model::decode_charset(&b, cs.as_bytes()) {
            model::Dec::Ok(s) => (b, s),
            _ => panic!("generator: {:?} in {}", b, cs),
        }
    }
    pub fn charset(&mut self) -> &'static str {
        if self.s.pct(40) {
            "utf-8"
        } else {
            *self.s.pick(&CHARSETS[..])
        }
    }
    /// writes an encoded word of at most 75 characters, returns its text
    pub fn encoded_word(&mut self, phrase: bool) -> Option<Vec<u8>> {
        let cs = self.charset();
        let b64 = self.s.pct(45);
        let max = if self.s.pct(15) { 45 } else { 12 };
        // in a phrase, base64 must avoid nothing (its alphabet is atext), Q escapes everything unusual
        let (bytes, text) = self.charset_text(cs, max, |c| c >= 32 && c < 127 || c == 9);
        let mut w = b"=?".to_vec();
        let m = self.case_mix(cs.as_bytes());
        w.extend(m);
        if self.s.pct(15) {
            w.push(b'*');
            let t = self.s.below(4);
            w.extend_from_slice([&b"en"[..], b"EN-us", b"fr", b"x-klingon"][t as usize]);
        }
        w.push(b'?');
        if b64 {
            w.push(*self.s.pick(b"Bb"));
            w.push(b'?');
            w.extend(b64_encode(&bytes));
        } else {
            w.push(*self.s.pick(b"Qq"));
            w.push(b'?');
            for &c in &bytes {
                let safe = if phrase { c.is_ascii_alphanumeric() || b"!*+-/".contains(&c) } else { model::vchar(c) && !b"=?_".contains(&c) };
                if c == b' ' && !self.s.pct(40) {
                    w.push(b'_');
                } else if safe && !self.s.pct(10) {
                    w.push(c);
                } else {
                    let up = self.s.pct(60);
                    w.extend(if up { format!("={:02X}", c) } else { format!("={:02x}", c) }.bytes());
                }
            }
        }
        w.extend_from_slice(b"?=");
        if w.len() > 75 {
            return None;
        }
        self.put(&w);
        Some(text.into_bytes())
    }
    pub fn vchars(&mut self, mean: u32, max: u32) -> Vec<u8> {
        let mut v = Vec::new();
        if self.s.dict(6) {
            v = self.s.dict_bytes(60, model::vchar);
        } else if self.s.pct(3) {
            v = self.s.pick(&USUAL_WORDS[..]).as_bytes().to_vec();
        }
        if v.is_empty() {
            for _ in 0..1 + self.s.size(mean, max) {
                let c = if self.s.pct(60) { *self.s.pick(ALNUM) } else { self.s.range(33, 126) as u8 };
                v.push(c);
            }
            self.s.stretch(&mut v, 140_000);
        }
        v
    }
    /// free text; the expected value is exact unless `unsure` gets set
    pub fn text(&mut self) -> S {
        let n = if self.s.pct(4) { self.s.size(60, 300) } else { self.s.count(3, 30, 300) };
        let mut exp: Vec<u8> = Vec::new();
        let mut prev_ew = false;
        for i in 0..n {
            let at = self.o.len();
            if i > 0 || !self.s.pct(15) {
                self.fws();
                if self.o.len() == at {
                    self.put(b" ");
                }
            }
            let ws: Vec<u8> = self.o[at..].iter().copied().filter(|c| model::wsp(*c)).collect();
            if self.k.mime && self.k.ew > 0 && self.s.pct(self.k.ew) {
                if let Some(t) = self.encoded_word(false) {
                    if !prev_ew {
                        exp.extend_from_slice(&ws);
                    }
                    exp.extend(t);
                    prev_ew = true;
                    continue;
                }
            }
            let v = self.vchars(5, 200);
            if self.k.mime && v.starts_with(b"=?") {
                self.unsure = true;
            }
            exp.extend_from_slice(&ws);
            exp.extend_from_slice(&v);
            self.put(&v);
            prev_ew = false;
        }
        if self.s.pct(20) {
            // trailing white space; after white space only, nothing is left
            self.wsps(1);
        }
        if n == 0 {
            exp.clear();
        }
        any(exp)
    }
    // ------------------------------------------------ trace
    pub fn return_path(&mut self) -> Option<Addr> {
        if self.s.pct(40) {
            self.cf();
            self.put(b"<");
            self.cf();
            self.put(b">");
            self.cf();
            None
        } else {
            Some(self.angle_addr())
        }
    }
    pub fn received(&mut self) -> (Vec<Tok>, DT) {
        let n = self.s.count(4, 20, 300);
        let mut v = Vec::new();
        for i in 0..n {
            // tokens that could run together are kept apart
            if i > 0 {
                self.cfws_sep();
            } else {
                self.cf();
            }
            match self.s.weighted(&[5, 2, 2, 4, 1]) {
                0 => {
                    let w = if self.s.pct(20) {
                        self.quoted()
                    } else {
                        let v = self.atom_bytes();
                        self.put(&v);
                        any(v)
                    };
                    v.push(Tok::Word(w));
                }
                1 => {
                    self.put(b"<");
                    let a = self.addr_spec();
                    self.put(b">");
                    v.push(Tok::Addr(a));
                }
                2 => {
                    let local = self.local_part();
                    self.put(b"@");
                    let domain = self.domain();
                    v.push(Tok::Addr(Addr { local, domain }));
                }
                3 => {
                    let mut d = self.atom_bytes();
                    d.push(b'.');
                    let r = self.dot_atom_bytes();
                    d.extend(r);
                    self.put(&d);
                    v.push(Tok::Domain(any(d)));
                }
                _ => {
                    let k = self.o.len();
                    let d = self.domain();
                    if self.o[k] != b'[' && !d.t.contains(&b'.') {
                        v.push(Tok::Word(d));
                    } else {
                        v.push(Tok::Domain(d));
                    }
                }
            }
        }
        if n > 0 {
            self.cf();
        }
        self.put(b";");
        let d = self.date_time(true);
        (v, d)
    }
    pub fn keywords(&mut self) -> Vec<Vec<S>> {
        let n = self.count(1);
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.put(b",");
            }
            v.push(self.phrase());
        }
        v
    }
    // ------------------------------------------------ MIME
    pub fn param_name(&mut self) -> Vec<u8> {
        let n = match self.s.weighted(&[4, 3]) {
            0 => {
                let t = *self.s.pick(&["charset", "name", "boundary", "format", "type", "size", "x-a", "delsp", "start", "filenam", "filename2", "file", "read-dat"]);
                t.as_bytes().to_vec()
            }
            _ => {
                let t = self.token_bytes();
                t.into_iter().filter(|c| *c != b'*').collect()
            }
        };
        if n.is_empty() {
            b"p".to_vec()
        } else {
            n
        }
    }
    pub fn param_value(&mut self) -> Vec<u8> {
        if self.s.pct(50) {
            self.token_bytes()
        } else {
            self.quoted_bytes()
        }
    }
    /// `=value`, bare when possible
    pub fn put_value(&mut self, v: &[u8]) {
        let bare = !v.is_empty() && v.iter().all(|c| model::ttext(*c));
        if bare && !self.s.pct(40) {
            self.put(v);
        } else {
            self.quote(v);
        }
    }
    pub fn semi(&mut self) {
        self.cf();
        self.put(b";");
        match self.s.weighted(&[5, 2, 3]) {
            0 => self.put(b" "),
            1 => {}
            _ => self.cf(),
        }
    }
    pub fn put_param(&mut self, n: &[u8], v: &[u8]) {
        self.semi();
        let m = self.case_mix(n);
        self.put(&m);
        self.put(b"=");
        self.put_value(v);
    }
    /// the boundary of a multipart, now and then in RFC 2231 form
    pub fn put_boundary(&mut self, v: &[u8]) {
        if v.iter().all(|c| (32..127).contains(c) || *c == b'\t') && !self.s.pct(4) {
            return self.put_param(b"boundary", v);
        }
        let cut = if self.s.pct(50) { v.len() } else { self.s.below(v.len() as u32 + 1) as usize };
        let mut a = b"utf-8''".to_vec();
        self.pct_encode(&v[..cut], &mut a);
        if cut == v.len() && self.s.pct(60) {
            self.put_param(b"boundary*", &a);
        } else {
            self.put_param(b"boundary*0*", &a);
            if cut < v.len() {
                let mut b = Vec::new();
                self.pct_encode(&v[cut..], &mut b);
                self.put_param(b"boundary*1*", &b);
            }
        }
    }
    fn pct_encode(&mut self, b: &[u8], o: &mut Vec<u8>) {
        for &c in b {
            if model::ttext(c) && !b"%*'".contains(&c) && !self.s.pct(15) {
                o.push(c);
            } else {
                let up = self.s.pct(60);
                o.extend(if up { format!("%{:02X}", c) } else { format!("%{:02x}", c) }.bytes());
            }
        }
    }
    /// one parameter in RFC 2231 form: the raw pieces (name suffix, value, may be quoted) and the expected value
    pub fn ext_param(&mut self, max_seg: u32) -> (Vec<(String, Vec<u8>, bool)>, Vec<u8>) {
        let known = !self.s.pct(12);
        let cs: String = if known { self.charset().to_string() } else { "x-unknown".to_string() };
        let lang = *self.s.pick(&["", "en", "fr-CA"]);
        match self.s.weighted(&[3, 3, 4]) {
            // name*=cs'lang'text
            0 => {
                let (b, t) = self.charset_text(if known { &cs } else { "us-ascii" }, 30, |_| true);
                let (mut b, mut t) = (b, t.into_bytes());
                self.s.stretch_whole(&mut b, &mut t, 70_000);
                let mut v = self.case_mix(cs.as_bytes());
                v.extend(format!("'{}'", lang).bytes());
                let mut enc = Vec::new();
                self.pct_encode(&b, &mut enc);
                v.extend_from_slice(&enc);
                (vec![("*".to_string(), v, false)], if known { t } else { enc })
            }
            // name*0=, name*1=
            1 => {
                let n = 1 + self.s.size(2, max_seg - 1) as usize;
                let mut out = Vec::new();
                let mut exp = Vec::new();
                for i in 0..n {
                    let v = self.param_value();
                    exp.extend_from_slice(&v);
                    out.push((format!("*{}", i), v, true));
                }
                (out, exp)
            }
            // name*0*=cs'lang'.., name*1=, name*2*=
            _ => {
                let n = 1 + self.s.size(2, max_seg - 1) as usize;
                let mut kinds = vec![true];
                for _ in 1..n {
                    kinds.push(self.s.pct(60));
                }
                let mut out = Vec::new();
                let mut exp = Vec::new();
                // a character may be cut between encoded segments only
                let mut i = 0;
                while i < n {
                    if !kinds[i] {
                        let v = self.param_value();
                        exp.extend_from_slice(&v);
                        out.push((format!("*{}", i), v, true));
                        i += 1;
                        continue;
                    }
                    let mut j = i;
                    while j < n && kinds[j] {
                        j += 1;
                    }
                    let (b, t) = self.charset_text(if known { &cs } else { "us-ascii" }, 8 * (j - i), |_| true);
                    if known {
                        exp.extend_from_slice(t.as_bytes());
                    }
                    let mut rest = &b[..];
                    for k in i..j {
                        let cut = if k + 1 == j { rest.len() } else { self.s.below(rest.len() as u32 + 1) as usize };
                        let mut v = Vec::new();
                        if k == 0 {
                            v.extend(self.case_mix(cs.as_bytes()));
                            v.extend(format!("'{}'", lang).bytes());
                        }
                        let mut enc = Vec::new();
                        self.pct_encode(&rest[..cut], &mut enc);
                        if enc.is_empty() && v.is_empty() {
                            // an empty token cannot be written
                            if k + 1 == j || true {
                                let up = self.s.pct(50);
                                let _ = up;
                            }
                        }
                        if !known {
                            exp.extend_from_slice(&enc);
                        }
                        v.extend_from_slice(&enc);
                        rest = &rest[cut..];
                        out.push((format!("*{}*", k), v, false));
                    }
                    i = j;
                }
                // empty encoded segments have no bare form: shorten the list at the first one
                if let Some(p) = out.iter().position(|x| !x.2 && x.1.is_empty()) {
                    out[p].2 = true; // written as a quoted string: left to the model
                    self.unsure = true;
                }
                (out, exp)
            }
        }
    }
    pub fn params(&mut self, reserved: &[&str], ext: u32) -> Params {
        let mut p = Params::new();
        let mut pieces: Vec<(Vec<u8>, Vec<u8>, bool)> = Vec::new();
        let n = self.s.count(2, 10, 300);
        for _ in 0..n {
            let name = self.param_name();
            let l = name.to_ascii_lowercase();
            if p.contains_key(&l) || reserved.iter().any(|r| r.as_bytes() == &l[..]) {
                continue;
            }
            if ext > 0 && self.s.pct(ext) {
                let maxseg = if self.s.pct(5) { 40 } else { 6 };
                let (ps, exp) = self.ext_param(maxseg);
                for (suffix, v, q) in ps {
                    let mut full = name.clone();
                    full.extend(suffix.bytes());
                    pieces.push((full, v, q));
                }
                p.insert(any(l), any(exp));
            } else {
                let v = if l == b"charset" && self.s.pct(50) {
                    let c = self.charset();
                    if self.s.pct(25) { self.case_mix(c.as_bytes()) } else { c.as_bytes().to_vec() }
                } else {
                    self.param_value()
                };
                p.insert(any(l), any(v.clone()));
                pieces.push((name, v, true));
            }
        }
        if self.s.pct(60) {
            // shuffle
            for i in (1..pieces.len()).rev() {
                let j = self.s.below(i as u32 + 1) as usize;
                pieces.swap(i, j);
            }
        }
        for (n, v, may_quote) in pieces {
            if may_quote {
                self.put_param(&n, &v);
            } else {
                self.semi();
                let m = self.case_mix(&n);
                self.put(&m);
                self.put(b"=");
                self.put(&v);
            }
        }
        p
    }
    fn near(&mut self, t: &[u8]) -> Vec<u8> {
        let mut v = t.to_vec();
        match self.s.below(4) {
            0 => v.push(*self.s.pick(b"sx-1.")),
            1 => {
                v.pop();
            }
            2 => {
                let i = self.s.below(v.len() as u32) as usize;
                v[i] = *self.s.pick(ALNUM);
            }
            _ => v.insert(0, *self.s.pick(b"xi")),
        }
        if v.is_empty() {
            v.push(b'x');
        }
        v
    }
    pub fn keyword(&mut self, known: &[&str]) -> Kw {
        let t = match self.s.weighted(&[6, 2, 2]) {
            0 => {
                let k = *self.s.pick(known);
                k.as_bytes().to_vec()
            }
            1 => {
                let k = *self.s.pick(known);
                self.near(k.as_bytes())
            }
            _ => self.token_bytes(),
        };
        let t = self.case_mix(&t);
        self.put(&t);
        model::kw(&t, known)
    }
    pub fn content_type(&mut self) -> Item {
        self.cf();
        let ty = self.keyword(model::TYPES);
        self.put(b"/");
        let sub = if self.s.pct(35) {
            let t = *self.s.pick(&USUAL_SUBTYPES[..]);
            if self.s.pct(25) { self.case_mix(t.as_bytes()) } else { t.as_bytes().to_vec() }
        } else {
            self.token_bytes()
        };
        self.put(&sub);
        let params = if self.s.pct(15) { Params::new() } else { self.params(&[], 20) };
        self.cf();
        Item::ContentType { ty, sub: any(sub.to_ascii_lowercase()), params }
    }
    pub fn disposition(&mut self) -> Disp {
        self.cf();
        let kind = self.keyword(model::DISPS);
        let mut d = Disp { kind, filename: None, creation: None, modification: None, read: None, params: Params::new() };
        // two runs of ordinary parameters around the special ones
        let reserved = ["filename", "creation-date", "modification-date", "read-date"];
        d.params = self.params(&reserved, 15);
        let mut order = vec![0, 1, 2, 3];
        for i in (1..4).rev() {
            let j = self.s.below(i as u32 + 1) as usize;
            order.swap(i, j);
        }
        order.push(4);
        for k in order {
            if self.s.pct(if k == 4 { 40 } else { 8 }) {
                let more = self.params(&reserved, 15);
                for (n, v) in more {
                    if d.params.insert(n, v).is_some() {
                        self.unsure = true; // twice
                    }
                }
            }
            if k == 4 || !self.s.pct(45) {
                continue;
            }
            if k == 0 {
                if self.s.pct(30) {
                    let (ps, exp) = self.ext_param(5);
                    for (suffix, v, q) in ps {
                        let full = format!("filename{}", suffix);
                        if q {
                            self.put_param(full.as_bytes(), &v);
                        } else {
                            self.semi();
                            let m = self.case_mix(full.as_bytes());
                            self.put(&m);
                            self.put(b"=");
                            self.put(&v);
                        }
                    }
                    d.filename = Some(any(exp));
                } else {
                    let v = self.param_value();
                    self.put_param(b"filename", &v);
                    d.filename = Some(any(v));
                }
                continue;
            }
            let name = reserved[k];
            if self.s.pct(80) {
                self.semi();
                let m = self.case_mix(name.as_bytes());
                self.put(&m);
                self.put(b"=\"");
                let t = self.date_time(false);
                self.put(b"\"");
                match k {
                    1 => d.creation = Some(t),
                    2 => d.modification = Some(t),
                    _ => d.read = Some(t),
                }
            } else {
                // not a date
                let mut v = if self.s.pct(50) {
                    let keep = std::mem::take(&mut self.o);
                    let ncuts = self.cuts.len();
                    let cf = std::mem::replace(&mut self.k.cf, 0);
                    self.date_time(false);
                    self.k.cf = cf;
                    let mut v = std::mem::replace(&mut self.o, keep);
                    self.cuts.truncate(ncuts);
                    v.retain(|c| *c != b'\r' && *c != b'\n');
                    let i = self.s.below(v.len() as u32) as usize;
                    v[i] = *self.s.pick(b"x9 :,+");
                    v
                } else {
                    self.param_value()
                };
                v.retain(|c| *c != b'(');
                self.unsure = true; // it may still be a date
                self.put_param(name.as_bytes(), &v);
                d.params.insert(any(name.as_bytes()), any(v));
            }
        }
        self.cf();
        d
    }
    pub fn mime_version(&mut self) -> Item {
        self.cf();
        let a = if self.s.pct(50) { 1 } else { self.s.number(0, 255) };
        let b = if self.s.pct(50) { 0 } else { self.s.number(0, 255) };
        self.put(a.to_string().as_bytes());
        self.cf();
        self.put(b".");
        self.cf();
        self.put(b.to_string().as_bytes());
        self.cf();
        Item::MimeVersion(a as u8, b as u8)
    }
    pub fn cte(&mut self) -> Item {
        self.cf();
        let k = self.keyword(model::CTES);
        self.cf();
        Item::Cte(k)
    }
    // ------------------------------------------------ whole header values
    pub fn value(&mut self, name: &str) -> Option<Item> {
        Some(match name {
            "date" => Item::Date(self.date_time(true)),
            "from" => Item::From(self.mailboxes()),
            "sender" => Item::Sender(self.mailbox()),
            "reply-to" => Item::ReplyTo(self.addresses()),
            "to" => Item::To(self.addresses()),
            "cc" => Item::Cc(self.addresses()),
            "bcc" => {
                if self.s.pct(20) {
                    self.cf();
                    Item::Bcc(vec![])
                } else {
                    Item::Bcc(self.addresses())
                }
            }
            "message-id" => Item::MessageId(self.msg_id()),
            "content-id" => Item::ContentId(self.msg_id()),
            "in-reply-to" => Item::InReplyTo(self.msg_ids()),
            "references" => Item::References(self.msg_ids()),
            "keywords" => Item::Keywords(self.keywords()),
            "subject" => Item::Subject(self.text()),
            "comments" => Item::Comments(self.text()),
            "content-description" => Item::ContentDescription(self.text()),
            "mime-version" => self.mime_version(),
            "content-type" => self.content_type(),
            "content-transfer-encoding" => self.cte(),
            "content-disposition" => Item::ContentDisposition(self.disposition()),
            _ => return None,
        })
    }
    /// what another header would say, on one line, where any text may stand
    pub fn foreign(&mut self) {
        let (start, cuts, unsure) = (self.o.len(), self.cuts.len(), self.unsure);
        match self.s.weighted(&[3, 1, 8]) {
            0 => {
                self.received();
            }
            1 => {
                self.return_path();
            }
            _ => {
                let n = self.s.pick(&KNOWN[..]).to_ascii_lowercase();
                self.value(&n);
            }
        }
        let v: Vec<u8> = self.o.split_off(start).into_iter().filter(|c| !matches!(c, b'\r' | b'\n')).collect();
        self.cuts.truncate(cuts);
        self.unsure = unsure;
        if v.iter().all(|c| *c == b'\t' || (32..127).contains(c)) {
            self.put(b" ");
            self.put(&v);
        } else {
            self.text();
        }
    }
    /// a field name made of pieces: prefixes, known names, words of the program's own
    fn compound_name(&mut self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::new();
        let n = self.s.number(2, 3);
        for i in 0..n {
            match self.s.weighted(&[4, 4, 3, 2]) {
                0 => v.extend_from_slice(self.s.pick(&["X-", "Resent-", "List-", "Content-", "Original-", "Old-", "Disposition-", "MIME-", "ARC-", "-"]).as_bytes()),
                1 => {
                    let t = *self.s.pick(&KNOWN[..]);
                    v.extend_from_slice(t.as_bytes());
                }
                2 => {
                    let t = self.s.dict_bytes(12, model::ftext);
                    v.extend(t);
                }
                _ => {
                    for _ in 0..self.s.number(1, 4) {
                        v.push(*self.s.pick(ALNUM));
                    }
                }
            }
            if i + 1 < n && self.s.pct(15) {
                v.push(b'-');
            }
        }
        if v.is_empty() {
            v.push(b'Z');
        }
        v
    }
    pub fn field_name(&mut self) -> Vec<u8> {
        match self.s.weighted(&[3, 3, 2, 1, 1, 2]) {
            5 => self.compound_name(),
            0 => {
                let n = 1 + self.s.below(9);
                let mut v = b"X-".to_vec();
                for _ in 0..n {
                    v.push(*self.s.pick(ALNUM));
                }
                v
            }
            1 => {
                // resembles a known one
                let k = *self.s.pick(&KNOWN[..]);
                let v = self.near(k.as_bytes());
                v.into_iter().map(|c| if model::ftext(c) { c } else { b'-' }).collect()
            }
            2 => {
                let t = *self.s.pick(&["List-Id", "DKIM-Signature", "Received", "Return-Path", "Resent-To", "Resent-Date", "Resent-Bcc", "X", "!", "Content-Language", "Content-Location"]);
                t.as_bytes().to_vec()
            }
            3 => {
                let v = self.s.dict_bytes(30, model::ftext);
                if v.is_empty() {
                    b"Y".to_vec()
                } else {
                    v
                }
            }
            _ => {
                let n = 1 + self.s.size(8, 100);
                (0..n)
                    .map(|_| {
                        let c = self.s.range(33, 126) as u8;
                        if c == b':' {
                            b';'
                        } else {
                            c
                        }
                    })
                    .collect()
            }
        }
    }
    // ------------------------------------------------ bodies
    /// CRLF separated lines of US-ASCII
    pub fn ascii_body(&mut self) {
        let n = self.s.count(3, 40, 300);
        let start = self.o.len();
        let before = std::mem::replace(&mut self.s.stretched, true); // the lines must stay short
        for _ in 0..n {
            match self.s.weighted(&[6, 3, 1, 1]) {
                0 => {
                    let v = self.vchars(8, 60);
                    self.put(&v);
                    if self.s.pct(30) {
                        self.put(b" ");
                    }
                }
                1 => {}
                2 => {
                    let n = self.s.number(990, 998);
                    let c = self.s.range(1, 127) as u8;
                    let c = if c == 10 || c == 13 { b'x' } else { c };
                    for _ in 0..n {
                        self.o.push(c);
                    }
                }
                _ => {
                    for _ in 0..self.s.size(8, 40) {
                        let c = self.s.range(1, 127) as u8;
                        self.o.push(if c == 10 || c == 13 { b' ' } else { c });
                    }
                }
            }
            if !self.s.pct(10) {
                self.put(b"\r\n");
            }
        }
        self.s.stretched = before;
        if self.s.pct(8) {
            let mut b = self.o.split_off(start);
            let old = b.clone();
            affix(self.s, &mut b, true);
            let long = b.split(|c| *c == b'\n').any(|l| l.len() > 998);
            self.put(if long { &old } else { &b });
        }
        if self.o[start..].ends_with(b"\r\n") {
            let mut b = self.o.split_off(start);
            self.s.stretch(&mut b, 140_000);
            if b.ends_with(b"\r") {
                b.pop();
            }
            self.put(&b);
        }
    }
    pub fn bytes_body(&mut self, mean: u32, max: u32) {
        let start = self.o.len();
        for _ in 0..self.s.size(mean, max) {
            match self.s.weighted(&[4, 3, 2, 1]) {
                0 => {
                    let c = self.s.below(256) as u8;
                    self.o.push(c);
                }
                1 => {
                    let c = *self.s.pick(ALNUM);
                    self.o.push(c);
                }
                2 => self.put(b"\r\n"),
                _ => {
                    let t = *self.s.pick(&["\r", "\n", "--", "=", "\0", "\u{e9}", "\r\n\r\n", " "]);
                    self.put(t.as_bytes());
                }
            }
        }
        if self.s.pct(10) {
            let mut b = self.o.split_off(start);
            affix(self.s, &mut b, false);
            self.put(&b);
        }
    }
}
/// what other programs mark the start, the end or a line of a text with
const MARKS: [&[u8]; 30] = [
    b"\x1a", b"\x04", b"\x0c", b"\t", b" ", b".", b".\r\n", b"..", b">From ", b"From ", b"From a@b.c Mon May  5 18:58:34 2003\r\n", b"-- \r\n", b"begin 644 f\r\n", b"end\r\n", b"-----BEGIN PGP MESSAGE-----\r\n", b"%PDF-1.4", b"<html>", b"> ", b"#!", b"=\r\n",
    b"\r\n", b"\r\n\r\n", b" \r\n", b"\t\r\n", b"=20", b"+AOk-", b"~{", b"\x1b$B", b"\x7f", b"X: y\r\n",
];
const BYTE_MARKS: [&[u8]; 20] = [
    b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"\0\0\0\0", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\x1f\x8b\x08", b"\x89PNG\r\n\x1a\n", b"PK\x03\x04", b"\xff\xd8\xff", b"\r", b"\n", b"\n\n", b"\r\r", b"\n\r", b"\xc2\xa0", b"\xe2\x80\xa8", b"\x85", b"\xa0",
];
/// one or two of those at the start, at the end, at a line or anywhere
pub fn affix(s: &mut Src, b: &mut Vec<u8>, ascii: bool) {
    for _ in 0..1 + s.size(1, 3) {
        let t: &[u8] = if ascii || s.pct(40) { s.pick(&MARKS[..]) } else { s.pick(&BYTE_MARKS[..]) };
        let i = match s.weighted(&[4, 4, 2, 2]) {
            0 => 0,
            1 => b.len(),
            2 => {
                let at: Vec<usize> = (1..b.len()).filter(|i| b[i - 1] == b'\n').collect();
                if at.is_empty() { 0 } else { *s.pick(&at) }
            }
            _ => s.below(b.len() as u32 + 1) as usize,
        };
        let i = if i > 0 && i < b.len() && b[i - 1] == b'\r' && b[i] == b'\n' && ascii { i + 1 } else { i };
        b.splice(i..i, t.iter().copied());
    }
}
pub const KNOWN: [&str; 19] = [
    "Date", "From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Subject", "Comments",
    "Keywords", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description",
    "Content-Disposition",
];
pub fn b64_encode(d: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= c.len() { A[(n >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
    }
    o
}

// ---------------------------------------------------------------- messages
#[derive(Clone, Debug)]
pub struct GLine {
    pub name: Vec<u8>,
    /// range of the value in the message
    pub val: (usize, usize),
    /// what was written, for a valid known header
    pub exp: Option<Item>,
    /// relative to the start of the value
    pub cuts: Vec<Cut>,
}
impl GLine {
    pub fn lname(&self) -> String {
        String::from_utf8_lossy(&self.name).to_ascii_lowercase()
    }
}
/// A message under construction.
#[derive(Clone, Debug, Default)]
pub struct Mail {
    pub b: Vec<u8>,
    pub lines: Vec<GLine>,
    pub body: Option<usize>,
}
impl Mail {
    /// a header with a valid value of its own grammar (or free text when there is none)
    pub fn known(&mut self, s: &mut Src, k: Knobs, name: &str) {
        let mut g = Gen::new(s, k);
        let shown = g.case_mix(name.as_bytes());
        self.known_as(s, k, name, &shown);
    }
    pub fn known_as(&mut self, s: &mut Src, k: Knobs, name: &str, shown: &[u8]) {
        let lname = name.to_ascii_lowercase();
        // now and then what another header of the message says already
        if !self.lines.is_empty() && s.pct(6) {
            if let Some(v) = self.said(s, &lname) {
                self.push(shown, &v, None);
                return;
            }
        }
        let mut g = Gen::new(s, k);
        g.put(shown);
        g.put(b":");
        if !g.s.pct(20) {
            if lname != "subject" && lname != "comments" && lname != "content-description" {
                g.put(b" ");
            }
        }
        let at = g.o.len();
        let base = lname.strip_prefix("resent-").unwrap_or(&lname).to_string();
        let mut exp = g.value(&base);
        if exp.is_none() {
            g.o.truncate(at);
            g.text();
        }
        if g.unsure || lname != base {
            exp = None;
        }
        let (o, cuts) = (g.o, g.cuts);
        let at = shown.len() + 1;
        self.push(shown, &o[at..], exp);
        self.cut(cuts, at);
    }
    /// the value of an earlier header that fits this one too
    fn said(&self, s: &mut Src, lname: &str) -> Option<Vec<u8>> {
        let base = |n: &str| n.strip_prefix("resent-").unwrap_or(n).to_string();
        let from: &[&str] = match base(lname).as_str() {
            "message-id" | "content-id" => &["message-id", "content-id"],
            "in-reply-to" | "references" => &["message-id", "in-reply-to", "references", "content-id"],
            "from" => &["from", "sender"],
            "sender" => &["sender"],
            "to" | "cc" | "bcc" | "reply-to" => &["from", "sender", "to", "cc", "reply-to"],
            "date" => &["date"],
            "subject" | "comments" | "content-description" => &["subject", "comments", "content-description"],
            _ => return None,
        };
        let fit: Vec<&GLine> = self.lines.iter().filter(|l| from.contains(&base(&l.lname()).as_str())).collect();
        if fit.is_empty() {
            return None;
        }
        Some(self.value(fit[s.below(fit.len() as u32) as usize]).to_vec())
    }
    fn cut(&mut self, cuts: Vec<Cut>, at: usize) {
        let l = self.lines.last_mut().unwrap();
        l.cuts = cuts.into_iter().filter(|c| c.a >= at).map(|c| Cut { a: c.a - at, z: c.z - at, kind: c.kind }).collect();
    }
    pub fn push(&mut self, name: &[u8], val: &[u8], exp: Option<Item>) {
        self.b.extend_from_slice(name);
        self.b.push(b':');
        let a = self.b.len();
        self.b.extend_from_slice(val);
        self.lines.push(GLine { name: name.to_vec(), val: (a, self.b.len()), exp, cuts: vec![] });
        self.b.extend_from_slice(b"\r\n");
    }
    pub fn unknown(&mut self, s: &mut Src, k: Knobs) {
        let mut g = Gen::new(s, k);
        let mut n = g.field_name();
        if !self.lines.is_empty() && g.s.pct(10) {
            // one that was there already, perhaps in other letters
            let old = g.s.pick(&self.lines).name.clone();
            if !KNOWN.iter().any(|k| k.as_bytes().eq_ignore_ascii_case(&old)) {
                n = g.case_mix(&old);
            }
        }
        if g.s.pct(12) {
            g.foreign();
        } else {
            g.text();
        }
        let v = g.o;
        self.push(&n, &v, None);
    }
    pub fn trace_block(&mut self, s: &mut Src, k: Knobs) {
        if s.pct(60) {
            let mut g = Gen::new(s, k);
            g.return_path();
            let (v, cuts) = (g.o, g.cuts);
            let n = Gen::new(s, k).case_mix(b"Return-Path");
            self.push(&n, &v, None);
            self.cut(cuts, 0);
        }
        for _ in 0..1 + s.count(1, 6, 300) {
            let mut g = Gen::new(s, k);
            g.received();
            let (v, cuts) = (g.o, g.cuts);
            let n = Gen::new(s, k).case_mix(b"Received");
            self.push(&n, &v, None);
            self.cut(cuts, 0);
        }
        for _ in 0..s.count(1, 6, 300) {
            let t = *s.pick(&["Resent-Date", "Resent-From", "Resent-Sender", "Resent-To", "Resent-Cc", "Resent-Bcc", "Resent-Message-ID"]);
            self.known(s, k, t);
        }
    }
    /// the smallest headers an email needs, unless they are there
    pub fn need(&mut self, s: &mut Src) {
        if !self.lines.iter().any(|l| l.lname() == "from") {
            self.push(b"From", b" a@b.c", None);
        }
        if !self.lines.iter().any(|l| l.lname() == "date") {
            self.push(b"Date", b" 5 May 2003 18:58:34 +0000", None);
        }
        if !self.lines.iter().any(|l| l.lname() == "sender") && s.pct(60) {
            self.push(b"Sender", b" s@b.c", None);
        }
    }
    pub fn end_headers(&mut self) {
        self.b.extend_from_slice(b"\r\n");
        self.body = Some(self.b.len());
    }
    pub fn value<'a>(&'a self, l: &GLine) -> &'a [u8] {
        &self.b[l.val.0..l.val.1]
    }
}

/// replaces one run of digits by a number at some boundary, or makes it longer
pub fn edit_number(s: &mut Src, b: &mut Vec<u8>) {
    const NUMBERS: &[&str] = &[
        "0", "00", "9", "10", "12", "13", "24", "29", "30", "31", "32", "59", "60", "61", "99", "100", "127", "128", "199", "250", "254", "255", "256", "257", "258", "259", "260", "265", "299", "300", "999", "1000", "1899", "1900", "9999", "10000",
        "32767", "32768", "65535", "65536", "99999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551619", "99999999999999999999",
        "340282366920938463463374607431768211456",
    ];
    let mut runs: Vec<(usize, usize)> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let j = (i..b.len()).find(|j| !b[*j].is_ascii_digit()).unwrap_or(b.len());
            runs.push((i, j));
            i = j;
        }
        i += 1;
    }
    if runs.is_empty() {
        return;
    }
    let (i, j) = runs[s.below(runs.len() as u32) as usize];
    let t: Vec<u8> = match s.weighted(&[6, 2, 2, 1]) {
        0 => s.pick(NUMBERS).as_bytes().to_vec(),
        1 => s.number(0, 70_000).to_string().into_bytes(),
        2 => {
            let mut v = rep0(s);
            v.extend_from_slice(&b[i..j]);
            v
        }
        _ => {
            let mut v = b[i..j].to_vec();
            for _ in 0..1 + s.size(8, 60) {
                v.push(b'0' + s.below(10) as u8);
            }
            v
        }
    };
    b.splice(i..j, t);
}
fn rep0(s: &mut Src) -> Vec<u8> {
    vec![b'0'; 1 + s.size(4, 60)]
}

/// edits bytes at random: what comes out need not be anything
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    const HOT: &[u8] = b"\r\n \t()<>@,;:\\\"[]=?*%'-.+/_a0\0\x7f\x80\xc3\xff";
    for _ in 0..1 + s.size(2, 30) {
        let n = b.len() as u32;
        if n == 0 {
            b.push(b':');
            continue;
        }
        let i = s.below(n) as usize;
        match s.weighted(&[4, 4, 3, 2, 2, 2, 1, 1, 3, 2, 3, 2]) {
            11 => near_grammar(s, b),
            10 => swap_construct(s, b),
            0 => b[i] = *s.pick(HOT),
            1 => b.insert(i, *s.pick(HOT)),
            2 => {
                b.remove(i);
            }
            3 => b[i] = s.below(256) as u8,
            4 => {
                // delete a span
                let l = 1 + s.size(6, 200) as usize;
                let e = (i + l).min(b.len());
                b.drain(i..e);
            }
            5 => {
                // copy a span somewhere else
                let l = 1 + s.size(10, 200) as usize;
                let e = (i + l).min(b.len());
                let t = b[i..e].to_vec();
                let j = s.below(b.len() as u32 + 1) as usize;
                let tail = b.split_off(j);
                b.extend(t);
                b.extend(tail);
            }
            6 => b.truncate(i),
            8 => edit_number(s, b),
            9 => b[i] ^= 1 << s.below(8),
            _ => {
                let t = *s.pick(&["\r\n", "\r\n ", "=?utf-8?q?=E9?=", "=?utf-8?b?", "?=", "*0*=", "*=", "utf-8''", "%E9", "--", "(", "\\", "\r\n\r\n"]);
                let tail = b.split_off(i);
                b.extend_from_slice(t.as_bytes());
                b.extend(tail);
            }
        }
    }
}
/// puts one construct of the grammar where another one (or nothing) was
pub fn swap_construct(s: &mut Src, v: &mut Vec<u8>) {
    const WITH: &[&str] = &[
        "\"a b\"", "\"\"", "\"a\\\"b\"", "\"x@y\"", "a.b", "[1.2]", "[]", "[a b]", "(c)", "<a@b.c>", "a@b.c", "g:;", "=?utf-8?q?x?=", "1", ".", "a b", "a..b", "\"a\".b", "a*0=b", "\"a/b\"",
    ];
    let with = s.pick(WITH).as_bytes();
    if v.is_empty() {
        v.extend_from_slice(with);
        return;
    }
    let i = s.below(v.len() as u32) as usize;
    if matches!(v[i], b'\r' | b'\n') || (i > 0 && v[i - 1] == b'\n') {
        return;
    }
    let tok = |c: u8| model::atext(c) || c == b'.';
    let (mut a, mut z) = (i, i);
    while a > 0 && tok(v[a - 1]) {
        a -= 1;
    }
    while z < v.len() && tok(v[z]) {
        z += 1;
    }
    v.splice(a..z, with.iter().copied());
}
/// what older or laxer grammars allow at a place like one of those in `v`: routes, zone names, short
/// years, blanks around the marks, empty list members, doubled or lost marks
pub fn near_grammar(s: &mut Src, v: &mut Vec<u8>) {
    let places = |v: &[u8], f: &dyn Fn(u8) -> bool| -> Vec<usize> { (0..v.len()).filter(|i| f(v[*i])).collect() };
    let runs = |v: &[u8], n: &dyn Fn(usize) -> bool| -> Vec<(usize, usize)> {
        let mut r = Vec::new();
        let mut i = 0;
        while i < v.len() {
            if v[i].is_ascii_digit() {
                let j = (i..v.len()).find(|j| !v[*j].is_ascii_digit()).unwrap_or(v.len());
                if n(j - i) {
                    r.push((i, j));
                }
                i = j;
            }
            i += 1;
        }
        r
    };
    for _ in 0..4 {
        match s.below(14) {
            0 => {
                let p = places(v, &|c| c == b'<');
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p) + 1;
                let t = *s.pick(&["@x:", "@a.b,@c:", "@x,:", ",@x:", "<", "@[1.2]:", "x:", " ", "(c)", "mailto:", ":"]);
                v.splice(i..i, t.bytes());
            }
            1 => {
                let r = runs(v, &|n| n == 4);
                let r: Vec<(usize, usize)> = r.into_iter().filter(|(i, _)| *i > 0 && matches!(v[i - 1], b'+' | b'-')).collect();
                if r.is_empty() {
                    continue;
                }
                let (i, j) = *s.pick(&r);
                let t = match s.weighted(&[4, 2, 2]) {
                    0 => s.pick(&["Z", "UT", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "UTC", "z", "gmt", "BST", "CEST"]).to_string(),
                    1 => ((b'A' + s.below(26) as u8) as char).to_string(),
                    _ => s.pick(&["+00:00", "+000", "+00000", "0000", "+ 0000", "--0000", "+-000", "", "+0000 GMT", "\u{2d}00", "+0", "+1", "+0a00", "(UTC)"]).to_string(),
                };
                v.splice(i - 1..j, t.into_bytes());
            }
            2 => {
                let r = runs(v, &|n| n == 4);
                if r.is_empty() {
                    continue;
                }
                let (i, j) = *s.pick(&r);
                let k = j - s.number(1, 3) as usize;
                v.drain(i..k);
            }
            3 => {
                // a one digit number where two are wanted, or the other way round
                let r = runs(v, &|n| n <= 2);
                if r.is_empty() {
                    continue;
                }
                let (i, j) = *s.pick(&r);
                if j - i == 2 {
                    v.remove(i);
                } else {
                    v.insert(i, b'0');
                }
            }
            4 => {
                let p = places(v, &|c| b".:@=/;,<>+-[]".contains(&c));
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p) + s.below(2) as usize;
                let t = *s.pick(&[" ", "(c)", "\t", "\r\n ", " (c) "]);
                v.splice(i..i, t.bytes());
            }
            5 => {
                let p = places(v, &|c| b",;:.<>@=/\"()+-[]".contains(&c));
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                let c = v[i];
                v.insert(i, c);
            }
            6 => {
                let p = places(v, &|c| b",;:.<>@=/\"()[]".contains(&c));
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                v.remove(i);
            }
            7 => {
                let t = *s.pick(&[",", ";", ".", ":", " ,", ", ,", ";;", "()", "<>", "-", "\"\"", " "]);
                if s.pct(40) {
                    v.splice(0..0, t.bytes());
                } else {
                    v.extend_from_slice(t.as_bytes());
                }
            }
            8 => {
                // a phrase as older mail has it
                let p: Vec<usize> = (1..v.len()).filter(|i| v[*i] == b' ' && v[i - 1].is_ascii_alphanumeric()).collect();
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                v.insert(i, *s.pick(b".:@,;'"));
            }
            9 => {
                let p = places(v, &|c| c == b'@');
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                let t = *s.pick(&[".\"a\"", "\"a\"", ".", " . a", "\"\"", "@", "%b"]);
                v.splice(i..i, t.bytes());
            }
            10 => {
                // one bracketed thing more, or the brackets only
                let p = places(v, &|c| c == b'<' || c == b'>');
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                let t = *s.pick(&["<a@b>", "<>", "><", "< >"]);
                v.splice(i..i, t.bytes());
            }
            11 | 12 => {
                // the names of days and months as others write them
                const NAMES: &[&str] = &[
                    "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December", "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
                ];
                let mut p: Vec<(usize, &str)> = Vec::new();
                for i in 0..v.len().saturating_sub(2) {
                    if let Some(n) = NAMES.iter().find(|n| n.as_bytes()[..3].eq_ignore_ascii_case(&v[i..i + 3])) {
                        p.push((i, n));
                    }
                }
                if p.is_empty() {
                    continue;
                }
                let (i, n) = *s.pick(&p);
                let t = match s.weighted(&[3, 3, 3]) {
                    0 => n.to_string(),
                    1 => {
                        let k = s.number(1, n.len() as u32) as usize;
                        n[..k].to_string()
                    }
                    _ => [&n[..3], *s.pick(&["t", ".", ",", " ", "s", "e", "\u{27}", "-", "1"])].concat(),
                };
                v.splice(i..i + 3, t.into_bytes());
            }
            _ => {
                // letters in the other case
                let p = places(v, &|c| c.is_ascii_alphabetic());
                if p.is_empty() {
                    continue;
                }
                let i = *s.pick(&p);
                let mut j = i;
                while j < v.len() && v[j].is_ascii_alphabetic() {
                    v[j] ^= 0x20;
                    j += 1;
                }
            }
        }
        return;
    }
}
/// edits one value with bytes that keep it printable, so that the message stays acceptable
pub fn tweak(s: &mut Src, v: &mut Vec<u8>) {
    const HOT: &[u8] = b" ()<>@,;:\\\"[]=?*%'-.+/_a0";
    for _ in 0..1 + s.size(1, 6) {
        let n = v.len() as u32;
        if n == 0 {
            v.push(*s.pick(HOT));
            continue;
        }
        let i = s.below(n) as usize;
        if v[i] == b'\r' || v[i] == b'\n' || (i > 0 && v[i - 1] == b'\n') {
            continue;
        }
        match s.weighted(&[8, 8, 8, 2, 2, 5, 7, 6]) {
            6 => swap_construct(s, v),
            7 => near_grammar(s, v),
            0 => v[i] = *s.pick(HOT),
            1 => v.insert(i, *s.pick(HOT)),
            2 => {
                v.remove(i);
            }
            3 => v[i] = s.range(33, 126) as u8,
            5 => edit_number(s, v),
            _ => {
                v.truncate(i);
                while matches!(v.last(), Some(b'\r' | b'\n' | b' ' | b'\t')) {
                    v.pop();
                }
            }
        }
    }
}
