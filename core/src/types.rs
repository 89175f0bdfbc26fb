//! Canonical (feature independent) form of everything the parser returns.
use std::collections::BTreeMap;

/// Where the bytes of a returned string live.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prov {
    /// expected side only: nothing is required
    Any,
    /// an owned `String`/`Vec`
    Owned,
    /// borrowed from the caller's buffer at this offset
    In(usize),
    /// borrowed from somewhere else
    Ext,
}

#[derive(Clone)]
pub struct S {
    pub t: Vec<u8>,
    pub p: Prov,
}
impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        self.t == o.t
    }
}
impl Eq for S {}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for S {
    fn cmp(&self, o: &S) -> std::cmp::Ordering {
        self.t.cmp(&o.t)
    }
}
impl std::borrow::Borrow<[u8]> for S {
    fn borrow(&self) -> &[u8] {
        &self.t
    }
}
impl std::borrow::Borrow<Vec<u8>> for S {
    fn borrow(&self) -> &Vec<u8> {
        &self.t
    }
}
impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "\"{}\"", esc(&self.t))
    }
}
pub fn esc(t: &[u8]) -> String {
    let mut o = String::new();
    for c in String::from_utf8_lossy(t).chars() {
        match c {
            '\r' => o.push_str("\\r"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
impl S {
    pub fn any(t: impl Into<Vec<u8>>) -> S {
        S { t: t.into(), p: Prov::Any }
    }
    pub fn lower(&self) -> Vec<u8> {
        self.t.to_ascii_lowercase()
    }
}

pub type Id = (S, S);

#[derive(Clone, Debug, PartialEq)]
pub struct Addr {
    pub local: S,
    pub domain: S,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mbox {
    pub name: Option<Vec<S>>,
    pub addr: Addr,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Address {
    M(Mbox),
    G(Vec<S>, Vec<Mbox>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct DT {
    pub dow: Option<u8>,
    pub day: u8,
    pub mon: u8,
    pub year: u64,
    pub h: u8,
    pub m: u8,
    pub s: u8,
    pub plus: bool,
    pub zh: u8,
    pub zm: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(S),
    Addr(Addr),
    Domain(S),
}
#[derive(Clone, Debug, PartialEq)]
pub struct TraceV {
    pub rp: Option<Option<Addr>>,
    pub recv: Vec<(Vec<Tok>, DT)>,
    /// resent fields, as ordinary items
    pub fields: Vec<Item>,
}
/// name -> value. The key is lowercase ASCII.
pub type Params = BTreeMap<S, S>;

/// `known` is true for an enum variant of a standard type, false for `Unknown(name)`
#[derive(Clone, Debug, PartialEq)]
pub struct Kw {
    pub known: bool,
    pub name: S,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Disp {
    pub kind: Kw,
    pub filename: Option<S>,
    pub creation: Option<DT>,
    pub modification: Option<DT>,
    pub read: Option<DT>,
    pub params: Params,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Date(DT),
    From(Vec<Mbox>),
    Sender(Mbox),
    ReplyTo(Vec<Address>),
    To(Vec<Address>),
    Cc(Vec<Address>),
    Bcc(Vec<Address>),
    MessageId(Id),
    InReplyTo(Vec<Id>),
    References(Vec<Id>),
    Subject(S),
    Comments(S),
    Keywords(Vec<Vec<S>>),
    MimeVersion(u8, u8),
    ContentType { ty: Kw, sub: S, params: Params },
    Cte(Kw),
    ContentId(Id),
    ContentDescription(S),
    ContentDisposition(Disp),
    Trace(TraceV),
    Unknown { name: S, value: S },
}
impl Item {
    pub fn kind(&self) -> &'static str {
        match self {
            Item::Date(..) => "date",
            Item::From(..) => "from",
            Item::Sender(..) => "sender",
            Item::ReplyTo(..) => "reply-to",
            Item::To(..) => "to",
            Item::Cc(..) => "cc",
            Item::Bcc(..) => "bcc",
            Item::MessageId(..) => "message-id",
            Item::InReplyTo(..) => "in-reply-to",
            Item::References(..) => "references",
            Item::Subject(..) => "subject",
            Item::Comments(..) => "comments",
            Item::Keywords(..) => "keywords",
            Item::MimeVersion(..) => "mime-version",
            Item::ContentType { .. } => "content-type",
            Item::Cte(..) => "content-transfer-encoding",
            Item::ContentId(..) => "content-id",
            Item::ContentDescription(..) => "content-description",
            Item::ContentDisposition(..) => "content-disposition",
            Item::Trace(..) => "trace",
            Item::Unknown { .. } => "unknown",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub items: Vec<Item>,
    pub body: Option<S>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub ty: Kw,
    pub sub: S,
    pub desc: Option<S>,
    pub id: Option<Id>,
    pub params: Params,
    pub disp: Option<Disp>,
    pub value: S,
    pub extra: Vec<(S, S)>,
    /// decoded form, when it was asked for
    pub node: Option<Box<Node>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Multi { sub: S, parts: Vec<Ent> },
    Text { sub: S, value: S },
    Unknown,
    Err,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EmailV {
    /// unique headers present in the result, by lowercase name
    pub slots: BTreeMap<&'static str, Item>,
    pub comments: Vec<S>,
    pub keywords: Vec<Vec<S>>,
    pub trace: Vec<TraceV>,
    pub unknown: Vec<(S, S)>,
    /// feature sets without mime
    pub body: Option<S>,
    /// feature sets with mime
    pub ent: Option<Ent>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrV {
    Dup(String),
    Missing(String),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Err(ErrV),
    Panic(String),
}
pub type SutRes<T> = Result<T, Fail>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Feats {
    pub to: bool,
    pub cc: bool,
    pub bcc: bool,
    pub date: bool,
    pub from: bool,
    pub sender: bool,
    pub reply_to: bool,
    pub message_id: bool,
    pub in_reply_to: bool,
    pub references: bool,
    pub subject: bool,
    pub comments: bool,
    pub keywords: bool,
    pub trace: bool,
    pub mime: bool,
    pub cd: bool,
    pub unrec: bool,
    pub compat: bool,
}
pub const HEADER_FEATS: [&str; 14] = [
    "to", "cc", "bcc", "date", "from", "sender", "reply-to", "message-id", "in-reply-to", "references", "subject",
    "comments", "keywords", "trace",
];
impl Feats {
    /// is the header of this lowercase name parsed in this feature set?
    pub fn enabled(&self, name: &str) -> bool {
        match name {
            "to" => self.to,
            "cc" => self.cc,
            "bcc" => self.bcc,
            "date" => self.date,
            "from" => self.from,
            "sender" => self.sender,
            "reply-to" => self.reply_to,
            "message-id" => self.message_id,
            "in-reply-to" => self.in_reply_to,
            "references" => self.references,
            "subject" => self.subject,
            "comments" => self.comments,
            "keywords" => self.keywords,
            "mime-version" | "content-type" | "content-transfer-encoding" | "content-id" | "content-description" => self.mime,
            "content-disposition" => self.cd,
            _ => false,
        }
    }
}

/// What was seen while converting one result.
#[derive(Clone, Debug, Default)]
pub struct Audit {
    pub strings: u32,
    pub bad_utf8: Vec<Vec<u8>>,
    pub non_ascii: Vec<Vec<u8>>,
    /// borrowed, not empty, not inside the buffer and not a fixed default
    pub ext: Vec<Vec<u8>>,
    /// peak bytes allocated by the call itself
    pub peak: usize,
}

/// The code under test, behind one feature-independent interface. Implemented in the harness crate.
pub trait Sut {
    fn feats(&self) -> Feats;
    fn label(&self) -> &'static str;
    fn message(&self, data: &[u8], au: &mut Audit) -> SutRes<Msg>;
    /// `depth` = how many levels of entities to decode
    fn email(&self, data: &[u8], depth: usize, au: &mut Audit) -> SutRes<EmailV>;
    fn email_try_from(&self, data: &[u8], au: &mut Audit) -> SutRes<EmailV>;
    fn b64_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>>;
    fn qp_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>>;
    fn b64_encode(&self, data: &[u8]) -> SutRes<Vec<u8>>;
    fn qp_encode(&self, data: &[u8]) -> SutRes<Vec<u8>>;
    /// one MIME part, from a borrowed or an owned buffer
    fn raw_entity(&self, data: &[u8], owned: bool, depth: usize, au: &mut Audit) -> SutRes<Ent>;
    /// parse, take ownership of every convertible value, destroy the source buffer, and report what is left
    fn owned_items(&self, data: &[u8]) -> SutRes<(Vec<Item>, Vec<Item>)>;
    /// parse an email, clone its entity (and the decoded tree), destroy nothing, compare: (original, clone, equal by ==)
    fn cloned_entity(&self, data: &[u8], depth: usize) -> SutRes<(Ent, Ent, bool)>;
    /// is_composite_type of each content type found
    fn composite(&self, data: &[u8]) -> SutRes<Vec<(Item, bool)>>;
    fn error_strings(&self, data: &[u8]) -> SutRes<Option<(String, String)>>;
    /// bytes still allocated after each message was parsed, decoded and dropped, compared with before it
    fn kept_memory(&self, runs: &[Vec<u8>], depth: usize) -> SutRes<Vec<isize>>;
    /// thread k parses the messages `jobs[k]` one after the other while the others do theirs; `script` decides who runs when
    fn threads(&self, data: &[Vec<u8>], jobs: &[Vec<usize>], script: &[(u32, u32)], depth: usize) -> Vec<Vec<(SutRes<Msg>, SutRes<EmailV>)>>;
    /// n threads decode one and the same parsed entity at the same time
    fn shared_entity(&self, data: &[u8], n: usize, script: &[(u32, u32)], depth: usize) -> SutRes<Vec<SutRes<Ent>>>;
}

// ---------------------------------------------------------------- visiting strings
impl Addr {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        f(&self.local);
        f(&self.domain);
    }
}
impl Mbox {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        for s in self.name.iter().flatten() {
            f(s);
        }
        self.addr.each(f);
    }
}
impl Address {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        match self {
            Address::M(m) => m.each(f),
            Address::G(n, v) => {
                n.iter().for_each(&mut *f);
                v.iter().for_each(|m| m.each(f));
            }
        }
    }
}
fn each_param(p: &Params, f: &mut dyn FnMut(&S)) {
    p.iter().for_each(|(k, v)| {
        f(k);
        f(v);
    });
}
impl Disp {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        f(&self.kind.name);
        self.filename.iter().for_each(&mut *f);
        each_param(&self.params, f);
    }
}
impl TraceV {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        if let Some(Some(a)) = &self.rp {
            a.each(f);
        }
        for (t, _) in &self.recv {
            for t in t {
                match t {
                    Tok::Word(s) | Tok::Domain(s) => f(s),
                    Tok::Addr(a) => a.each(f),
                }
            }
        }
        for i in &self.fields {
            i.each(f);
        }
    }
}
impl Item {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        match self {
            Item::Date(_) | Item::MimeVersion(..) => {}
            Item::From(v) => v.iter().for_each(|m| m.each(f)),
            Item::Sender(m) => m.each(f),
            Item::ReplyTo(v) | Item::To(v) | Item::Cc(v) | Item::Bcc(v) => v.iter().for_each(|m| m.each(f)),
            Item::MessageId(i) | Item::ContentId(i) => {
                f(&i.0);
                f(&i.1);
            }
            Item::InReplyTo(v) | Item::References(v) => v.iter().for_each(|i| {
                f(&i.0);
                f(&i.1);
            }),
            Item::Subject(s) | Item::Comments(s) | Item::ContentDescription(s) => f(s),
            Item::Keywords(k) => k.iter().flatten().for_each(f),
            Item::Cte(k) => f(&k.name),
            Item::ContentType { ty, sub, params } => {
                f(&ty.name);
                f(sub);
                each_param(params, f);
            }
            Item::ContentDisposition(d) => d.each(f),
            Item::Trace(t) => t.each(f),
            Item::Unknown { name, value } => {
                f(name);
                f(value);
            }
        }
    }
}
impl Ent {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        f(&self.ty.name);
        f(&self.sub);
        self.desc.iter().for_each(&mut *f);
        if let Some(i) = &self.id {
            f(&i.0);
            f(&i.1);
        }
        each_param(&self.params, f);
        if let Some(d) = &self.disp {
            d.each(f);
        }
        f(&self.value);
        for (a, b) in &self.extra {
            f(a);
            f(b);
        }
        match self.node.as_deref() {
            Some(Node::Multi { sub, parts }) => {
                f(sub);
                parts.iter().for_each(|p| p.each(f));
            }
            Some(Node::Text { sub, value }) => {
                f(sub);
                f(value);
            }
            _ => {}
        }
    }
}
impl Msg {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        self.items.iter().for_each(|i| i.each(f));
        self.body.iter().for_each(f);
    }
}
impl EmailV {
    pub fn each(&self, f: &mut dyn FnMut(&S)) {
        self.slots.values().for_each(|i| i.each(f));
        self.comments.iter().for_each(&mut *f);
        self.keywords.iter().flatten().for_each(&mut *f);
        self.trace.iter().for_each(|t| t.each(f));
        for (a, b) in &self.unknown {
            f(a);
            f(b);
        }
        self.body.iter().for_each(&mut *f);
        if let Some(e) = &self.ent {
            e.each(f);
        }
    }
}
