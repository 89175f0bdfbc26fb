//! The library behind the feature independent interface of `vcore`.
#![allow(dead_code, unused_variables, unused_imports, unused_mut)]
use crate::alloc::measure;
use email_parser::address::{Address as LAddress, EmailAddress, Mailbox};
use email_parser::error::Error;
#[cfg(feature = "mime")]
use email_parser::mime::{self, RawEntity};
use email_parser::prelude::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use vcore::cov::sched;
use vcore::types::*;

extern "C" {
    static __executable_start: u8;
    static end: u8;
}
fn in_static(p: usize) -> bool {
    unsafe { p >= std::ptr::addr_of!(__executable_start) as usize && p < std::ptr::addr_of!(end) as usize }
}

/// conversion state
pub struct Cv<'x> {
    /// the caller's buffer
    buf: (usize, usize),
    /// buffers owned by entities that are being decoded
    owned: RefCell<Vec<(usize, usize)>>,
    au: RefCell<&'x mut Audit>,
}
impl<'x> Cv<'x> {
    fn new(d: &[u8], au: &'x mut Audit) -> Cv<'x> {
        Cv { buf: (d.as_ptr() as usize, d.len()), owned: RefCell::new(Vec::new()), au: RefCell::new(au) }
    }
    fn bytes(&self, t: &[u8], owned: bool, text: bool) -> S {
        let mut au = self.au.borrow_mut();
        au.strings += 1;
        if text {
            if std::str::from_utf8(t).is_err() {
                au.bad_utf8.push(t.to_vec());
            }
            if !t.is_ascii() {
                au.non_ascii.push(t.to_vec());
            }
        }
        let p = t.as_ptr() as usize;
        let prov = if t.is_empty() {
            Prov::Any
        } else if owned {
            Prov::Owned
        } else if p >= self.buf.0 && p + t.len() <= self.buf.0 + self.buf.1 {
            Prov::In(p - self.buf.0)
        } else if self.owned.borrow().iter().any(|o| p >= o.0 && p + t.len() <= o.0 + o.1) {
            Prov::Owned
        } else if in_static(p) {
            Prov::Any
        } else {
            au.ext.push(t.to_vec());
            Prov::Ext
        };
        S { t: t.to_vec(), p: prov }
    }
    fn cow(&self, s: &Cow<str>) -> S {
        self.bytes(s.as_bytes(), matches!(s, Cow::Owned(_)), true)
    }
    fn raw(&self, s: &Cow<[u8]>) -> S {
        self.bytes(s, matches!(s, Cow::Owned(_)), false)
    }
    fn id(&self, i: &(Cow<str>, Cow<str>)) -> Id {
        (self.cow(&i.0), self.cow(&i.1))
    }
    fn ids(&self, i: &[(Cow<str>, Cow<str>)]) -> Vec<Id> {
        i.iter().map(|i| self.id(i)).collect()
    }
    fn words(&self, w: &[Cow<str>]) -> Vec<S> {
        w.iter().map(|w| self.cow(w)).collect()
    }
    fn addr(&self, a: &EmailAddress) -> Addr {
        Addr { local: self.cow(&a.local_part), domain: self.cow(&a.domain) }
    }
    fn mbox(&self, m: &Mailbox) -> Mbox {
        Mbox { name: m.name.as_ref().map(|n| self.words(n)), addr: self.addr(&m.address) }
    }
    fn mboxes(&self, m: &[Mailbox]) -> Vec<Mbox> {
        m.iter().map(|m| self.mbox(m)).collect()
    }
    fn addresses(&self, a: &[LAddress]) -> Vec<Address> {
        a.iter()
            .map(|a| match a {
                LAddress::Mailbox(m) => Address::M(self.mbox(m)),
                LAddress::Group((n, m)) => Address::G(self.words(n), self.mboxes(m)),
            })
            .collect()
    }
    fn params(&self, p: &HashMap<Cow<str>, Cow<str>>) -> Params {
        p.iter().map(|(n, v)| (self.cow(n), self.cow(v))).collect()
    }
    #[cfg(feature = "mime")]
    fn kw_type(&self, t: &mime::ContentType) -> Kw {
        use mime::ContentType::*;
        let k = |n: &str| Kw { known: true, name: S::any(n) };
        match t {
            Text => k("text"),
            Image => k("image"),
            Audio => k("audio"),
            Video => k("video"),
            Application => k("application"),
            Message => k("message"),
            Multipart => k("multipart"),
            Unknown(n) => Kw { known: false, name: self.cow(n) },
        }
    }
    #[cfg(feature = "mime")]
    fn kw_cte(&self, t: &mime::ContentTransferEncoding) -> Kw {
        use mime::ContentTransferEncoding::*;
        let k = |n: &str| Kw { known: true, name: S::any(n) };
        match t {
            SevenBit => k("7bit"),
            HeightBit => k("8bit"),
            Binary => k("binary"),
            QuotedPrintable => k("quoted-printable"),
            Base64 => k("base64"),
            Unknown(n) => Kw { known: false, name: self.cow(n) },
        }
    }
    #[cfg(feature = "mime")]
    fn kw_disp(&self, t: &mime::DispositionType) -> Kw {
        use mime::DispositionType::*;
        let k = |n: &str| Kw { known: true, name: S::any(n) };
        match t {
            Inline => k("inline"),
            Attachment => k("attachment"),
            Unknown(n) => Kw { known: false, name: self.cow(n) },
        }
    }
    #[cfg(feature = "mime")]
    fn disp(&self, d: &mime::Disposition) -> Disp {
        Disp {
            kind: self.kw_disp(&d.disposition_type),
            filename: d.filename.as_ref().map(|f| self.cow(f)),
            creation: d.creation_date.as_ref().map(dt),
            modification: d.modification_date.as_ref().map(dt),
            read: d.read_date.as_ref().map(dt),
            params: self.params(&d.unstructured),
        }
    }
    fn field(&self, f: &Field) -> Item {
        match f {
            #[cfg(feature = "date")]
            Field::Date(d) => Item::Date(dt(d)),
            #[cfg(feature = "from")]
            Field::From(m) => Item::From(self.mboxes(m)),
            #[cfg(feature = "sender")]
            Field::Sender(m) => Item::Sender(self.mbox(m)),
            #[cfg(feature = "reply-to")]
            Field::ReplyTo(a) => Item::ReplyTo(self.addresses(a)),
            #[cfg(feature = "to")]
            Field::To(a) => Item::To(self.addresses(a)),
            #[cfg(feature = "cc")]
            Field::Cc(a) => Item::Cc(self.addresses(a)),
            #[cfg(feature = "bcc")]
            Field::Bcc(a) => Item::Bcc(self.addresses(a)),
            #[cfg(feature = "message-id")]
            Field::MessageId(i) => Item::MessageId(self.id(i)),
            #[cfg(feature = "in-reply-to")]
            Field::InReplyTo(i) => Item::InReplyTo(self.ids(i)),
            #[cfg(feature = "references")]
            Field::References(i) => Item::References(self.ids(i)),
            #[cfg(feature = "subject")]
            Field::Subject(s) => Item::Subject(self.cow(s)),
            #[cfg(feature = "comments")]
            Field::Comments(s) => Item::Comments(self.cow(s)),
            #[cfg(feature = "keywords")]
            Field::Keywords(k) => Item::Keywords(k.iter().map(|k| self.words(k)).collect()),
            #[cfg(feature = "mime")]
            Field::MimeVersion(a, b) => Item::MimeVersion(*a, *b),
            #[cfg(feature = "mime")]
            Field::ContentType { mime_type, subtype, parameters } => {
                Item::ContentType { ty: self.kw_type(mime_type), sub: self.cow(subtype), params: self.params(parameters) }
            }
            #[cfg(feature = "mime")]
            Field::ContentTransferEncoding(e) => Item::Cte(self.kw_cte(e)),
            #[cfg(feature = "mime")]
            Field::ContentId(i) => Item::ContentId(self.id(i)),
            #[cfg(feature = "mime")]
            Field::ContentDescription(s) => Item::ContentDescription(self.cow(s)),
            #[cfg(feature = "content-disposition")]
            Field::ContentDisposition(d) => Item::ContentDisposition(self.disp(d)),
            #[cfg(feature = "trace")]
            Field::Trace { return_path, received, fields } => Item::Trace(TraceV {
                rp: return_path.as_ref().map(|r| r.as_ref().map(|a| self.addr(a))),
                recv: received.iter().map(|(t, d)| (t.iter().map(|t| self.tok(t)).collect(), dt(d))).collect(),
                fields: fields.iter().map(|f| self.trace_field(f)).collect(),
            }),
            Field::Unknown { name, value } => {
                Item::Unknown { name: self.bytes(name.as_bytes(), false, true), value: self.cow(value) }
            }
        }
    }
    #[cfg(feature = "hook")]
    fn tok(&self, t: &email_parser::verif::ReceivedToken) -> Tok {
        use email_parser::verif::ReceivedToken as T;
        match t {
            T::Word(s) => Tok::Word(self.cow(s)),
            T::Addr(a) => Tok::Addr(self.addr(a)),
            T::Domain(s) => Tok::Domain(self.cow(s)),
        }
    }
    #[cfg(feature = "hook")]
    fn trace_field(&self, f: &email_parser::verif::TraceField) -> Item {
        use email_parser::verif::TraceField as T;
        match f {
            T::Date(d) => Item::Date(dt(d)),
            T::From(m) => Item::From(self.mboxes(m)),
            T::Sender(m) => Item::Sender(self.mbox(m)),
            T::To(a) => Item::To(self.addresses(a)),
            T::Cc(a) => Item::Cc(self.addresses(a)),
            T::Bcc(a) => Item::Bcc(self.addresses(a)),
            T::MessageId(i) => Item::MessageId(self.id(i)),
        }
    }
    #[cfg(not(feature = "hook"))]
    fn tok<T: std::fmt::Debug>(&self, t: &T) -> Tok {
        crate::dbg::tok(&format!("{:?}", t))
    }
    #[cfg(not(feature = "hook"))]
    fn trace_field<T: std::fmt::Debug>(&self, t: &T) -> Item {
        crate::dbg::trace_field(&format!("{:?}", t))
    }
    #[cfg(feature = "mime")]
    fn entity(&self, e: &RawEntity, depth: usize) -> Ent {
        let mut o = Ent {
            ty: self.kw_type(&e.mime_type),
            sub: self.cow(&e.subtype),
            desc: e.description.as_ref().map(|d| self.cow(d)),
            id: e.id.as_ref().map(|i| self.id(i)),
            params: self.params(&e.parameters),
            #[cfg(feature = "content-disposition")]
            disp: e.disposition.as_ref().map(|d| self.disp(d)),
            #[cfg(not(feature = "content-disposition"))]
            disp: None,
            value: self.raw(&e.value),
            extra: e.additional_headers.iter().map(|(n, v)| (self.cow(n), self.cow(v))).collect(),
            node: None,
        };
        if depth > 0 {
            let own = matches!(e.value, Cow::Owned(_)) || matches!(e.subtype, Cow::Owned(_));
            if let Cow::Owned(v) = &e.value {
                self.owned.borrow_mut().push((v.as_ptr() as usize, v.len()));
            }
            let (r, peak) = measure(|| e.parse());
            {
                let mut au = self.au.borrow_mut();
                au.peak = au.peak.max(peak);
            }
            o.node = Some(Box::new(match &r {
                Ok(mime::Entity::Multipart { subtype, content }) => Node::Multi {
                    sub: self.cow(subtype),
                    parts: content.iter().map(|p| self.entity(p, depth - 1)).collect(),
                },
                Ok(mime::Entity::Text { subtype, value }) => Node::Text { sub: self.cow(subtype), value: self.cow(value) },
                Ok(mime::Entity::Unknown) => Node::Unknown,
                Err(_) => Node::Err,
            }));
            drop(r);
            if let Cow::Owned(_) = &e.value {
                self.owned.borrow_mut().pop();
            }
        }
        o
    }
    fn email(&self, e: &Email, depth: usize) -> EmailV {
        let mut o = EmailV { slots: BTreeMap::new(), comments: vec![], keywords: vec![], trace: vec![], unknown: vec![], body: None, ent: None };
        #[cfg(feature = "from")]
        o.slots.insert("from", Item::From(self.mboxes(&e.from)));
        #[cfg(feature = "sender")]
        o.slots.insert("sender", Item::Sender(self.mbox(&e.sender)));
        #[cfg(feature = "subject")]
        if let Some(s) = &e.subject {
            o.slots.insert("subject", Item::Subject(self.cow(s)));
        }
        #[cfg(feature = "date")]
        o.slots.insert("date", Item::Date(dt(&e.date)));
        #[cfg(feature = "to")]
        if let Some(s) = &e.to {
            o.slots.insert("to", Item::To(self.addresses(s)));
        }
        #[cfg(feature = "cc")]
        if let Some(s) = &e.cc {
            o.slots.insert("cc", Item::Cc(self.addresses(s)));
        }
        #[cfg(feature = "bcc")]
        if let Some(s) = &e.bcc {
            o.slots.insert("bcc", Item::Bcc(self.addresses(s)));
        }
        #[cfg(feature = "message-id")]
        if let Some(s) = &e.message_id {
            o.slots.insert("message-id", Item::MessageId(self.id(s)));
        }
        #[cfg(feature = "in-reply-to")]
        if let Some(s) = &e.in_reply_to {
            o.slots.insert("in-reply-to", Item::InReplyTo(self.ids(s)));
        }
        #[cfg(feature = "references")]
        if let Some(s) = &e.references {
            o.slots.insert("references", Item::References(self.ids(s)));
        }
        #[cfg(feature = "reply-to")]
        if let Some(s) = &e.reply_to {
            o.slots.insert("reply-to", Item::ReplyTo(self.addresses(s)));
        }
        #[cfg(feature = "comments")]
        {
            o.comments = e.comments.iter().map(|c| self.cow(c)).collect();
        }
        #[cfg(feature = "keywords")]
        {
            o.keywords = e.keywords.iter().map(|k| self.words(k)).collect();
        }
        #[cfg(feature = "trace")]
        {
            o.trace = e
                .trace
                .iter()
                .map(|(rp, recv, fields)| TraceV {
                    rp: rp.as_ref().map(|r| r.as_ref().map(|a| self.addr(a))),
                    recv: recv.iter().map(|(t, d)| (t.iter().map(|t| self.tok(t)).collect(), dt(d))).collect(),
                    fields: fields.iter().map(|f| self.trace_field(f)).collect(),
                })
                .collect();
        }
        o.unknown = e.unknown_fields.iter().map(|(n, v)| (self.bytes(n.as_bytes(), false, true), self.cow(v))).collect();
        #[cfg(not(feature = "mime"))]
        {
            o.body = e.body.as_ref().map(|b| self.cow(b));
        }
        #[cfg(feature = "mime")]
        {
            o.ent = Some(self.entity(&e.mime_entity, depth));
        }
        o
    }
}
fn dt(d: &DateTime) -> DT {
    DT {
        dow: d.day_name.as_ref().map(|x| match x {
            Day::Monday => 1,
            Day::Tuesday => 2,
            Day::Wednesday => 3,
            Day::Thursday => 4,
            Day::Friday => 5,
            Day::Saturday => 6,
            Day::Sunday => 7,
        }),
        day: d.date.day,
        mon: match d.date.month {
            Month::January => 1,
            Month::February => 2,
            Month::March => 3,
            Month::April => 4,
            Month::May => 5,
            Month::June => 6,
            Month::July => 7,
            Month::August => 8,
            Month::September => 9,
            Month::October => 10,
            Month::November => 11,
            Month::December => 12,
        },
        year: d.date.year as u64,
        h: d.time.time.hour,
        m: d.time.time.minute,
        s: d.time.time.second,
        plus: d.time.zone.sign,
        zh: d.time.zone.hour_offset,
        zm: d.time.zone.minute_offset,
    }
}
fn err(e: &Error) -> Fail {
    Fail::Err(match e {
        Error::DuplicateHeader(n) => ErrV::Dup(n.to_string()),
        Error::MissingHeader(n) => ErrV::Missing(n.to_string()),
        e => ErrV::Other(e.to_string()),
    })
}
thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !at.contains("/repo/") && !at.contains("/.cargo/") && !at.contains("/rustc/") && !at.contains("/rustlib/") {
            eprintln!("harness panic at {}: {}", at, m);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, at));
    }));
}
fn guard<T>(f: impl FnOnce() -> SutRes<T>) -> SutRes<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail::Panic(PANIC.with(|p| p.borrow().clone()))),
    }
}
fn unsupported<T>() -> SutRes<T> {
    Err(Fail::Err(ErrV::Other("unsupported".into())))
}
/// a call into the library, its allocation counted
macro_rules! call {
    ($au:expr, $e:expr) => {{
        let (r, peak) = measure(|| $e);
        $au.peak = $au.peak.max(peak);
        r
    }};
}

pub struct Lib {
    pub label: &'static str,
}
fn body_of(b: &Option<impl AsBody>, cv: &Cv) -> Option<S> {
    b.as_ref().map(|b| b.to_s(cv))
}
trait AsBody {
    fn to_s(&self, cv: &Cv) -> S;
}
impl AsBody for &[u8] {
    fn to_s(&self, cv: &Cv) -> S {
        cv.bytes(self, false, false)
    }
}
impl<'a> AsBody for Cow<'a, str> {
    fn to_s(&self, cv: &Cv) -> S {
        cv.cow(self)
    }
}
impl Sut for Lib {
    fn feats(&self) -> Feats {
        Feats {
            to: cfg!(feature = "to"),
            cc: cfg!(feature = "cc"),
            bcc: cfg!(feature = "bcc"),
            date: cfg!(feature = "date"),
            from: cfg!(feature = "from"),
            sender: cfg!(feature = "sender"),
            reply_to: cfg!(feature = "reply-to"),
            message_id: cfg!(feature = "message-id"),
            in_reply_to: cfg!(feature = "in-reply-to"),
            references: cfg!(feature = "references"),
            subject: cfg!(feature = "subject"),
            comments: cfg!(feature = "comments"),
            keywords: cfg!(feature = "keywords"),
            trace: cfg!(feature = "trace"),
            mime: cfg!(feature = "mime"),
            cd: cfg!(feature = "content-disposition"),
            unrec: cfg!(feature = "unrecognized-headers"),
            compat: cfg!(feature = "compatibility-fixes"),
        }
    }
    fn label(&self) -> &'static str {
        self.label
    }
    fn message(&self, data: &[u8], au: &mut Audit) -> SutRes<Msg> {
        guard(|| {
            let (fields, body) = call!(au, parse_message(data)).map_err(|e| err(&e))?;
            let cv = Cv::new(data, au);
            Ok(Msg { items: fields.iter().map(|f| cv.field(f)).collect(), body: body_of(&body, &cv) })
        })
    }
    fn email(&self, data: &[u8], depth: usize, au: &mut Audit) -> SutRes<EmailV> {
        guard(|| {
            let e = call!(au, Email::parse(data)).map_err(|e| err(&e))?;
            let cv = Cv::new(data, au);
            Ok(cv.email(&e, depth))
        })
    }
    fn email_try_from(&self, data: &[u8], au: &mut Audit) -> SutRes<EmailV> {
        guard(|| {
            let e = call!(au, Email::try_from(data)).map_err(|e| err(&e))?;
            let cv = Cv::new(data, au);
            Ok(cv.email(&e, 0))
        })
    }
    #[allow(unreachable_code)]
    fn b64_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>> {
        #[cfg(feature = "benchmarking")]
        return guard(|| {
            let v = data.to_vec();
            call!(au, email_parser::prelude::decode_base64(v)).map_err(|e| err(&e))
        });
        #[cfg(all(feature = "hook", feature = "mime"))]
        return guard(|| {
            let v = data.to_vec();
            call!(au, email_parser::verif::decode_base64(v)).map_err(|e| err(&e))
        });
        unsupported()
    }
    #[allow(unreachable_code)]
    fn qp_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>> {
        #[cfg(feature = "benchmarking")]
        return guard(|| {
            let v = data.to_vec();
            Ok(call!(au, email_parser::prelude::decode_qp(v)))
        });
        #[cfg(all(feature = "hook", feature = "mime"))]
        return guard(|| {
            let v = data.to_vec();
            Ok(call!(au, email_parser::verif::decode_qp(v)))
        });
        unsupported()
    }
    #[allow(unreachable_code)]
    fn b64_encode(&self, data: &[u8]) -> SutRes<Vec<u8>> {
        #[cfg(all(feature = "hook", feature = "mime"))]
        return guard(|| Ok(email_parser::verif::encode_base64(data.to_vec())));
        unsupported()
    }
    #[allow(unreachable_code)]
    fn qp_encode(&self, data: &[u8]) -> SutRes<Vec<u8>> {
        #[cfg(all(feature = "hook", feature = "mime"))]
        return guard(|| Ok(email_parser::verif::encode_qp(data.to_vec())));
        unsupported()
    }
    #[allow(unreachable_code)]
    fn raw_entity(&self, data: &[u8], owned: bool, depth: usize, au: &mut Audit) -> SutRes<Ent> {
        #[cfg(all(feature = "hook", feature = "mime"))]
        return guard(|| {
            let input = if owned { Cow::Owned(data.to_vec()) } else { Cow::Borrowed(data) };
            let e = call!(au, email_parser::verif::raw_entity(input)).map_err(|e| err(&e))?;
            let cv = Cv::new(data, au);
            Ok(cv.entity(&e, depth))
        });
        unsupported()
    }
    fn owned_items(&self, data: &[u8]) -> SutRes<(Vec<Item>, Vec<Item>)> {
        #[cfg(not(feature = "mime"))]
        return Ok((vec![], vec![]));
        #[cfg(feature = "mime")]
        guard(|| {
            let mut buf = data.to_vec();
            let mut before = Vec::new();
            let mut kept: Vec<Kept> = Vec::new();
            {
                let mut au = Audit::default();
                let cv = Cv::new(&buf, &mut au);
                let (fields, _) = parse_message(&buf).map_err(|e| err(&e))?;
                for f in fields {
                    match f {
                        Field::ContentType { mime_type, .. } => keep(&cv, &mut before, &mut kept, One::Type(mime_type)),
                        Field::ContentTransferEncoding(e) => keep(&cv, &mut before, &mut kept, One::Cte(e)),
                        #[cfg(feature = "content-disposition")]
                        Field::ContentDisposition(d) => {
                            keep(&cv, &mut before, &mut kept, One::Kind(d.disposition_type.clone()));
                            keep(&cv, &mut before, &mut kept, One::Disp(d));
                        }
                        _ => {}
                    }
                }
                if let Ok(e) = Email::parse(&buf) {
                    parts(&cv, &e.mime_entity, &mut before, &mut kept, 4);
                }
            }
            // what the values referred to is overwritten and gone
            buf.fill(b'#');
            drop(buf);
            let mut au = Audit::default();
            let cv = Cv::new(&[], &mut au);
            let after = kept.iter().map(|k| k.item(&cv)).collect();
            Ok((before, after))
        })
    }
    fn cloned_entity(&self, data: &[u8], depth: usize) -> SutRes<(Ent, Ent, bool)> {
        #[cfg(not(feature = "mime"))]
        return unsupported();
        #[cfg(feature = "mime")]
        guard(|| {
            let mut au = Audit::default();
            let e = Email::parse(data).map_err(|e| err(&e))?;
            let cv = Cv::new(data, &mut au);
            let b = e.mime_entity.clone();
            let mut eq = b == e.mime_entity;
            if depth > 0 {
                let (x, y) = (e.mime_entity.parse(), b.parse());
                eq = eq && x == y && x.clone() == y;
            }
            let first = cv.entity(&e.mime_entity, depth);
            drop(e);
            let second = cv.entity(&b, depth);
            Ok((first, second, eq))
        })
    }
    fn composite(&self, data: &[u8]) -> SutRes<Vec<(Item, bool)>> {
        #[cfg(not(feature = "mime"))]
        return Ok(vec![]);
        #[cfg(feature = "mime")]
        guard(|| {
            let mut au = Audit::default();
            let (fields, _) = parse_message(data).map_err(|e| err(&e))?;
            let cv = Cv::new(data, &mut au);
            Ok(fields
                .iter()
                .filter_map(|f| match f {
                    Field::ContentType { mime_type, .. } => Some((cv.field(f), mime_type.is_composite_type())),
                    _ => None,
                })
                .collect())
        })
    }
    fn error_strings(&self, data: &[u8]) -> SutRes<Option<(String, String)>> {
        guard(|| {
            Ok(match Email::parse(data) {
                Ok(_) => None,
                Err(e) => Some((e.to_string(), format!("{:?}", e))),
            })
        })
    }
    fn kept_memory(&self, runs: &[Vec<u8>], depth: usize) -> SutRes<Vec<isize>> {
        let mut v = Vec::with_capacity(runs.len());
        for d in runs {
            let base = crate::alloc::live();
            let r: SutRes<()> = guard(|| {
                drop(parse_message(d));
                if let Ok(e) = Email::parse(d) {
                    #[cfg(feature = "mime")]
                    walk(&e.mime_entity, depth);
                    drop(e);
                }
                let _ = depth;
                #[cfg(all(feature = "hook", feature = "mime"))]
                {
                    if let Ok(e) = email_parser::verif::raw_entity(Cow::Borrowed(d)) {
                        walk(&e, depth);
                    }
                    if let Ok(e) = email_parser::verif::raw_entity(Cow::Owned(d.to_vec())) {
                        walk(&e, depth);
                    }
                    drop(email_parser::verif::decode_base64(d.to_vec()));
                    drop(email_parser::verif::decode_qp(d[..d.len().min(4096)].to_vec()));
                    drop(email_parser::verif::encode_base64(d.to_vec()));
                    drop(email_parser::verif::encode_qp(d[..d.len().min(4096)].to_vec()));
                }
                Ok(())
            });
            r?;
            v.push(crate::alloc::live() as isize - base as isize);
        }
        Ok(v)
    }
    fn threads(&self, data: &[Vec<u8>], jobs: &[Vec<usize>], script: &[(u32, u32)], depth: usize) -> Vec<Vec<(SutRes<Msg>, SutRes<EmailV>)>> {
        let mut out = Vec::new();
        sched::begin(jobs.len(), script);
        std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .iter()
                .enumerate()
                .map(|(k, job)| {
                    s.spawn(move || {
                        sched::enter(k);
                        let lib = Lib { label: "" };
                        let r: Vec<_> = job
                            .iter()
                            .map(|&i| {
                                let (mut a, mut b) = (Audit::default(), Audit::default());
                                (lib.message(&data[i], &mut a), lib.email(&data[i], depth, &mut b))
                            })
                            .collect();
                        sched::leave();
                        r
                    })
                })
                .collect();
            for h in hs {
                out.push(h.join().unwrap_or_default());
            }
        });
        sched::end();
        out
    }
    fn shared_entity(&self, data: &[u8], n: usize, script: &[(u32, u32)], depth: usize) -> SutRes<Vec<SutRes<Ent>>> {
        let _ = (data, n, script, depth);
        #[cfg(not(feature = "mime"))]
        return unsupported();
        #[cfg(feature = "mime")]
        {
            let e = guard(|| Email::parse(data).map_err(|e| err(&e)))?;
            let p = Shared(&e.mime_entity);
            let mut out = Vec::new();
            sched::begin(n, script);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        s.spawn(move || {
                            let p = p;
                            sched::enter(k);
                            let r = guard(|| {
                                let mut au = Audit::default();
                                let cv = Cv::new(data, &mut au);
                                Ok(cv.entity(p.get(), depth))
                            });
                            sched::leave();
                            r
                        })
                    })
                    .collect();
                for h in hs {
                    out.push(h.join().unwrap_or_else(|_| Err(Fail::Panic("thread".into()))));
                }
            });
            sched::end();
            Ok(out)
        }
    }
}
/// whether the library still promises Sync is for its own users' compilers to say
#[cfg(feature = "mime")]
#[derive(Clone, Copy)]
struct Shared<'r, 'a>(&'r RawEntity<'a>);
#[cfg(feature = "mime")]
unsafe impl<'r, 'a> Send for Shared<'r, 'a> {}
#[cfg(feature = "mime")]
impl<'r, 'a> Shared<'r, 'a> {
    fn get(self) -> &'r RawEntity<'a> {
        self.0
    }
}
#[cfg(feature = "mime")]
fn walk(e: &RawEntity, depth: usize) {
    drop(e.clone());
    drop(e.mime_type.clone().into_owned());
    #[cfg(feature = "content-disposition")]
    drop(e.disposition.clone().map(|d| d.into_owned()));
    if let Ok(x) = e.parse() {
        drop(x.clone());
        if let (mime::Entity::Multipart { content, .. }, true) = (&x, depth > 0) {
            for p in content {
                walk(p, depth - 1);
            }
        }
    }
}
#[cfg(feature = "mime")]
enum One<'a> {
    Type(mime::ContentType<'a>),
    Cte(mime::ContentTransferEncoding<'a>),
    Kind(mime::DispositionType<'a>),
    Disp(mime::Disposition<'a>),
}
#[cfg(feature = "mime")]
type Kept = One<'static>;
#[cfg(feature = "mime")]
impl<'a> One<'a> {
    fn item(&self, cv: &Cv) -> Item {
        match self {
            One::Type(t) => {
                let ty = cv.kw_type(t);
                // whose bytes the name is made of
                let sub = match t {
                    mime::ContentType::Unknown(n) => cv.cow(n),
                    _ => S::any(""),
                };
                Item::ContentType { ty, sub, params: Params::new() }
            }
            One::Cte(t) => Item::Cte(cv.kw_cte(t)),
            One::Kind(t) => Item::ContentDisposition(Disp {
                kind: cv.kw_disp(t),
                filename: None,
                creation: None,
                modification: None,
                read: None,
                params: Params::new(),
            }),
            One::Disp(d) => Item::ContentDisposition(cv.disp(d)),
        }
    }
    fn own(self) -> Kept {
        match self {
            One::Type(t) => One::Type(t.into_owned()),
            One::Cte(t) => One::Cte(t.into_owned()),
            One::Kind(t) => One::Kind(t.into_owned()),
            One::Disp(d) => One::Disp(d.into_owned()),
        }
    }
}
#[cfg(feature = "mime")]
fn keep(cv: &Cv, before: &mut Vec<Item>, kept: &mut Vec<Kept>, one: One) {
    before.push(one.item(cv));
    kept.push(one.own());
}
#[cfg(feature = "mime")]
fn parts(cv: &Cv, e: &RawEntity, before: &mut Vec<Item>, kept: &mut Vec<Kept>, depth: usize) {
    keep(cv, before, kept, One::Type(e.mime_type.clone()));
    #[cfg(feature = "content-disposition")]
    if let Some(d) = &e.disposition {
        keep(cv, before, kept, One::Disp(d.clone()));
    }
    if depth > 0 {
        if let Ok(mime::Entity::Multipart { content, .. }) = e.parse() {
            for p in &content {
                parts(cv, p, before, kept, depth - 1);
            }
        }
    }
}
