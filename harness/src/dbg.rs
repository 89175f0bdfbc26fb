//! Reads values from their `Debug` text: used only when the private types cannot be named
//! because the library does not compile with the hook.
use vcore::types::*;

#[derive(Debug, Clone)]
enum V {
    Str(Vec<u8>),
    Num(i64),
    /// name, fields (named or not)
    Node(String, Vec<(String, V)>),
    List(Vec<V>),
}
struct P<'a> {
    t: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.t.len() && (self.t[self.i].is_whitespace() || self.t[self.i] == ',') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> char {
        self.ws();
        *self.t.get(self.i).unwrap_or(&'\0')
    }
    fn list(&mut self, close: char) -> Vec<V> {
        self.i += 1;
        let mut v = Vec::new();
        while self.peek() != close && self.i < self.t.len() {
            v.push(self.value());
        }
        self.i += 1;
        v
    }
    fn value(&mut self) -> V {
        let c = self.peek();
        match c {
            '[' => V::List(self.list(']')),
            '(' => V::Node(String::new(), self.list(')').into_iter().map(|v| (String::new(), v)).collect()),
            '"' => {
                self.i += 1;
                let mut s = String::new();
                while self.i < self.t.len() && self.t[self.i] != '"' {
                    if self.t[self.i] == '\\' {
                        self.i += 1;
                        match self.t[self.i] {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            '0' => s.push('\0'),
                            'u' => {
                                let mut h = String::new();
                                self.i += 2;
                                while self.t[self.i] != '}' {
                                    h.push(self.t[self.i]);
                                    self.i += 1;
                                }
                                s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                            }
                            c => s.push(c),
                        }
                    } else {
                        s.push(self.t[self.i]);
                    }
                    self.i += 1;
                }
                self.i += 1;
                V::Str(s.into_bytes())
            }
            c if c.is_ascii_digit() => {
                let mut n = 0i64;
                while self.i < self.t.len() && self.t[self.i].is_ascii_digit() {
                    n = n.wrapping_mul(10) + self.t[self.i].to_digit(10).unwrap() as i64;
                    self.i += 1;
                }
                V::Num(n)
            }
            c if c.is_alphabetic() => {
                let mut n = String::new();
                while self.i < self.t.len() && (self.t[self.i].is_alphanumeric() || self.t[self.i] == '_') {
                    n.push(self.t[self.i]);
                    self.i += 1;
                }
                let save = self.i;
                match self.peek() {
                    '(' => {
                        let f = self.list(')');
                        V::Node(n, f.into_iter().map(|v| (String::new(), v)).collect())
                    }
                    '{' => {
                        self.i += 1;
                        let mut f = Vec::new();
                        while self.peek() != '}' && self.i < self.t.len() {
                            let mut k = String::new();
                            while self.i < self.t.len() && self.t[self.i] != ':' {
                                k.push(self.t[self.i]);
                                self.i += 1;
                            }
                            self.i += 1;
                            let v = self.value();
                            f.push((k.trim().to_string(), v));
                        }
                        self.i += 1;
                        V::Node(n, f)
                    }
                    _ => {
                        self.i = save;
                        V::Node(n, vec![])
                    }
                }
            }
            _ => {
                self.i += 1;
                V::Num(0)
            }
        }
    }
}
fn parse(t: &str) -> V {
    let c: Vec<char> = t.chars().collect();
    P { t: &c, i: 0 }.value()
}
impl V {
    fn name(&self) -> &str {
        match self {
            V::Node(n, _) => n,
            _ => "",
        }
    }
    fn at(&self, i: usize) -> &V {
        match self {
            V::Node(_, f) if i < f.len() => &f[i].1,
            _ => &V::Num(0),
        }
    }
    fn get(&self, k: &str) -> &V {
        match self {
            V::Node(_, f) => f.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&V::Num(0)),
            _ => &V::Num(0),
        }
    }
    fn s(&self) -> S {
        match self {
            V::Str(s) => S::any(s.clone()),
            _ => S::any(""),
        }
    }
    fn n(&self) -> i64 {
        match self {
            V::Num(n) => *n,
            _ => 0,
        }
    }
    fn l(&self) -> &[V] {
        match self {
            V::List(l) => l,
            _ => &[],
        }
    }
    fn words(&self) -> Vec<S> {
        self.l().iter().map(|v| v.s()).collect()
    }
    fn addr(&self) -> Addr {
        Addr { local: self.get("local_part").s(), domain: self.get("domain").s() }
    }
    fn mbox(&self) -> Mbox {
        let n = self.get("name");
        Mbox { name: if n.name() == "Some" { Some(n.at(0).words()) } else { None }, addr: self.get("address").addr() }
    }
    fn mboxes(&self) -> Vec<Mbox> {
        self.l().iter().map(|m| m.mbox()).collect()
    }
    fn addresses(&self) -> Vec<Address> {
        self.l()
            .iter()
            .map(|a| match a.name() {
                "Group" => Address::G(a.at(0).at(0).words(), a.at(0).at(1).mboxes()),
                _ => Address::M(a.at(0).mbox()),
            })
            .collect()
    }
    fn dt(&self) -> DT {
        const D: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
        const M: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
        let (d, t) = (self.get("date"), self.get("time"));
        let (c, z) = (t.get("time"), t.get("zone"));
        let day = self.get("day_name");
        DT {
            dow: if day.name() == "Some" { D.iter().position(|x| *x == day.at(0).name()).map(|x| x as u8 + 1) } else { None },
            day: d.get("day").n() as u8,
            mon: M.iter().position(|x| *x == d.get("month").name()).unwrap_or(99) as u8,
            year: d.get("year").n() as u64,
            h: c.get("hour").n() as u8,
            m: c.get("minute").n() as u8,
            s: c.get("second").n() as u8,
            plus: z.get("sign").name() == "true",
            zh: z.get("hour_offset").n() as u8,
            zm: z.get("minute_offset").n() as u8,
        }
    }
}
pub fn tok(t: &str) -> Tok {
    let v = parse(t);
    match v.name() {
        "Addr" => Tok::Addr(v.at(0).addr()),
        "Domain" => Tok::Domain(v.at(0).s()),
        _ => Tok::Word(v.at(0).s()),
    }
}
pub fn trace_field(t: &str) -> Item {
    let v = parse(t);
    let x = v.at(0);
    match v.name() {
        "Date" => Item::Date(x.dt()),
        "From" => Item::From(x.mboxes()),
        "Sender" => Item::Sender(x.mbox()),
        "To" => Item::To(x.addresses()),
        "Cc" => Item::Cc(x.addresses()),
        "Bcc" => Item::Bcc(x.addresses()),
        _ => Item::MessageId((x.at(0).s(), x.at(1).s())),
    }
}
