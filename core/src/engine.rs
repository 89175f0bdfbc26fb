//! Runs one property over many generated cases in forked workers, shrinks the first failure, writes the statistics.
use crate::cov;
use crate::props::{self, PropDef};
use crate::sys;
use crate::tape::{Dict, Rng, Src};
use crate::types::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const TAPE_CAP: usize = 1 << 18;
const CTL_WORDS: usize = 8 + 1 + TAPE_CAP;
const HANG_CPU: f64 = 20.0;

/// word 0: case index (low), 1: state (0 generating/checking, 1 inside the code under test), 2: cases done, 8..: tape
#[derive(Clone, Copy)]
pub struct Ctl(*mut u32);
impl Ctl {
    fn get(&self, i: usize) -> u32 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
    fn set(&self, i: usize, v: u32) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    fn tape(&self) -> Vec<u32> {
        let n = (self.get(8) as usize).min(TAPE_CAP);
        (0..n).map(|i| self.get(9 + i)).collect()
    }
    fn shm(&self) -> (*mut u32, usize) {
        (unsafe { self.0.add(8) }, TAPE_CAP)
    }
}

/// What one case tells about itself.
#[derive(Default)]
pub struct Obs {
    pub input: Vec<u8>,
    pub nontrivial: bool,
    /// the expected outcome is not fixed: nothing was compared
    pub gray: bool,
    pub labels: u64,
    pub note: String,
}
impl Obs {
    pub fn label(&mut self, i: u32) {
        self.labels |= 1 << i;
    }
}
pub struct Ctx<'c, 'd> {
    pub s: &'c mut Src<'d>,
    pub sut: &'c dyn Sut,
    pub o: &'c mut Obs,
    pub thorough: bool,
}

struct Guard<'a> {
    inner: &'a dyn Sut,
    ctl: Ctl,
}
macro_rules! guarded {
    ($self:ident, $e:expr) => {{
        $self.ctl.set(1, 1);
        let r = $e;
        $self.ctl.set(1, 0);
        r
    }};
}
impl<'a> Sut for Guard<'a> {
    fn feats(&self) -> Feats {
        self.inner.feats()
    }
    fn label(&self) -> &'static str {
        self.inner.label()
    }
    fn message(&self, data: &[u8], au: &mut Audit) -> SutRes<Msg> {
        guarded!(self, self.inner.message(data, au))
    }
    fn email(&self, data: &[u8], depth: usize, au: &mut Audit) -> SutRes<EmailV> {
        guarded!(self, self.inner.email(data, depth, au))
    }
    fn email_try_from(&self, data: &[u8], au: &mut Audit) -> SutRes<EmailV> {
        guarded!(self, self.inner.email_try_from(data, au))
    }
    fn b64_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>> {
        guarded!(self, self.inner.b64_decode(data, au))
    }
    fn qp_decode(&self, data: &[u8], au: &mut Audit) -> SutRes<Vec<u8>> {
        guarded!(self, self.inner.qp_decode(data, au))
    }
    fn b64_encode(&self, data: &[u8]) -> SutRes<Vec<u8>> {
        guarded!(self, self.inner.b64_encode(data))
    }
    fn qp_encode(&self, data: &[u8]) -> SutRes<Vec<u8>> {
        guarded!(self, self.inner.qp_encode(data))
    }
    fn raw_entity(&self, data: &[u8], owned: bool, depth: usize, au: &mut Audit) -> SutRes<Ent> {
        guarded!(self, self.inner.raw_entity(data, owned, depth, au))
    }
    fn owned_items(&self, data: &[u8]) -> SutRes<(Vec<Item>, Vec<Item>)> {
        guarded!(self, self.inner.owned_items(data))
    }
    fn cloned_entity(&self, data: &[u8], depth: usize) -> SutRes<(Ent, Ent, bool)> {
        guarded!(self, self.inner.cloned_entity(data, depth))
    }
    fn composite(&self, data: &[u8]) -> SutRes<Vec<(Item, bool)>> {
        guarded!(self, self.inner.composite(data))
    }
    fn error_strings(&self, data: &[u8]) -> SutRes<Option<(String, String)>> {
        guarded!(self, self.inner.error_strings(data))
    }
    fn kept_memory(&self, runs: &[Vec<u8>], depth: usize) -> SutRes<Vec<isize>> {
        guarded!(self, self.inner.kept_memory(runs, depth))
    }
    fn threads(&self, data: &[Vec<u8>], jobs: &[Vec<usize>], script: &[(u32, u32)], depth: usize) -> Vec<Vec<(SutRes<Msg>, SutRes<EmailV>)>> {
        guarded!(self, self.inner.threads(data, jobs, script, depth))
    }
    fn shared_entity(&self, data: &[u8], n: usize, script: &[(u32, u32)], depth: usize) -> SutRes<Vec<SutRes<Ent>>> {
        guarded!(self, self.inner.shared_entity(data, n, script, depth))
    }
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub max_secs: u64,
    pub out: String,
    pub dict: String,
    pub thorough: bool,
    pub shrink_secs: u64,
    /// report self-contradictions of the harness instead of leaving the case out
    pub strict: bool,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h ^ h >> 29
}
pub fn load_dict(path: &str) -> Dict {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(n) = l.strip_prefix("i ") {
            if let Ok(n) = n.parse() {
                d.ints.push(n);
            }
        } else if let Some(h) = l.strip_prefix("s ") {
            d.strs.push(unhex(h));
        } else if let Some(n) = l.strip_prefix("I ") {
            if let Ok(n) = n.parse() {
                d.new_ints.push(n);
            }
        } else if let Some(h) = l.strip_prefix("S ") {
            d.new_strs.push(unhex(h));
        }
    }
    d
}
pub fn tohex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn json_str(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 || (0x80..0xa0).contains(&(c as u32)) || (c as u32) == 0x2028 || (c as u32) == 0x2029 => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(b: &[u8], n: usize) -> String {
    if b.len() <= n {
        esc(b)
    } else {
        format!("{}... ({} bytes)", esc(&b[..n]), b.len())
    }
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ fnv(prop.as_bytes()) ^ i.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

fn mutate_tape(t: &[u32], other: &[u32], r: &mut Rng) -> Vec<u32> {
    let mut t = t.to_vec();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len() as u32) as usize;
        match r.below(8) {
            0 => t[i] = r.below(256),
            1 => t[i] = t[i].wrapping_add(1),
            2 => t[i] = t[i].wrapping_sub(1),
            3 => t[i] = if r.below(2) == 0 { 0 } else { r.next() as u32 },
            4 => {
                let e = (i + 1 + r.below(8) as usize).min(t.len());
                t.drain(i..e);
            }
            5 => {
                let e = (i + 1 + r.below(12) as usize).min(t.len());
                let c = t[i..e].to_vec();
                let tail = t.split_off(e);
                t.extend(c);
                t.extend(tail);
            }
            6 if !other.is_empty() => {
                let a = r.below(other.len() as u32) as usize;
                let e = (a + 1 + r.below(40) as usize).min(other.len());
                let tail = t.split_off(i);
                t.extend_from_slice(&other[a..e]);
                let skip = (e - a).min(tail.len());
                t.extend_from_slice(&tail[skip..]);
            }
            _ => {
                // let the rest be drawn afresh
                t.truncate(i);
            }
        }
    }
    t
}

struct Outcome {
    fail: Option<String>,
    obs: Obs,
    tape: Vec<u32>,
}
fn one(def: &PropDef, sut: &dyn Sut, mut src: Src, thorough: bool) -> Outcome {
    let mut obs = Obs::default();
    let r = {
        let mut ctx = Ctx { s: &mut src, sut, o: &mut obs, thorough };
        (def.run)(&mut ctx)
    };
    Outcome { fail: r.err(), obs, tape: src.rec }
}

fn worker(w: usize, def: &PropDef, sut: &dyn Sut, o: &Opts, ctl: Ctl, t0: Instant) {
    let mut dict = load_dict(&o.dict);
    let guard = Guard { inner: sut, ctl };
    let mut corpus: Vec<Vec<u32>> = Vec::new();
    let mut seen = cov::Seen::new();
    let (mut evals, mut gray, mut nontriv) = (0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<u32, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = Vec::new();
    let mut sample_labels = 0u64;
    let mut fail: Option<(u64, String, Vec<u32>)> = None;
    let mut mutated = 0u64;
    let mut selfc = 0u64;
    let mut bytes = 0u64;
    let guided = !cov::counters().is_empty();
    let mut i = w as u64;
    while i < o.cases {
        if t0.elapsed().as_secs() >= o.max_secs {
            break;
        }
        let seed = case_seed(o.seed, &o.prop, i);
        let mut r = Rng::new(seed ^ 0x5555);
        ctl.set(0, i as u32);
        ctl.set(8, 0);
        let mut src = if guided && !corpus.is_empty() && r.below(100) < 50 {
            mutated += 1;
            // favour recent entries
            let n = corpus.len() as u32;
            let k = if r.below(2) == 0 { n - 1 - r.below(n.min(32)) } else { r.below(n) };
            let other = corpus[r.below(n) as usize].clone();
            let t = mutate_tape(&corpus[k as usize], &other, &mut r);
            Src::replay(t, Some(seed), &dict)
        } else {
            Src::fresh(seed, &dict)
        };
        src.shm = Some(ctl.shm());
        if guided {
            cov::Seen::clear();
        }
        let mut out = one(def, &guard, src, o.thorough);
        if !o.strict && out.fail.as_ref().map_or(false, |m| m.starts_with("HARNESS")) {
            // the generator and the model disagree: the case decides nothing
            out.fail = None;
            out.obs.gray = true;
            selfc += 1;
        }
        evals += 1;
        ctl.set(2, evals as u32);
        if guided && seen.take() > 0 && out.tape.len() < 20_000 {
            corpus.push(out.tape.clone());
            if corpus.len() > 4000 {
                let k = r.below(2000) as usize;
                corpus.swap_remove(k);
            }
        }
        bytes += out.obs.input.len() as u64;
        if out.obs.gray {
            gray += 1;
        }
        for b in 0..64 {
            if out.obs.labels >> b & 1 == 1 {
                *labels.entry(b).or_default() += 1;
            }
        }
        if out.obs.nontrivial && !out.obs.gray {
            nontriv += 1;
            hashes.insert(fnv(&out.obs.input));
            let fresh_label = out.obs.labels & !sample_labels != 0;
            if (samples.len() < 4 || fresh_label) && samples.len() < 12 {
                sample_labels |= out.obs.labels;
                samples.push((i, format!("{}{}", clip(&out.obs.input, 220), if out.obs.note.is_empty() { String::new() } else { format!("  [{}]", out.obs.note) })));
            }
        }
        if let Some(m) = out.fail {
            fail = Some((i, m, out.tape));
            break;
        }
        if guided && evals == 2000 {
            // constants the code compares with
            for c in cov::consts() {
                if !dict.ints.contains(&c) {
                    dict.ints.push(c);
                }
            }
        }
        i += WORKERS as u64;
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}.w{}", o.out, w)).expect("out"));
    let _ = writeln!(f, "stat {} {} {} {} {} {} {} {}", evals, gray, nontriv, mutated, corpus.len(), seen.edges(), bytes, selfc);
    for (k, n) in labels {
        let _ = writeln!(f, "label {} {}", k, n);
    }
    for (i, s) in samples {
        let _ = writeln!(f, "sample {} {}", i, s.replace('\n', " "));
    }
    if let Some((i, m, t)) = fail {
        let _ = writeln!(f, "fail {} {}", i, tohex(m.as_bytes()));
        let _ = writeln!(f, "tape {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    for h in hashes {
        let _ = writeln!(f, "h {:x}", h);
    }
    let _ = f.flush();
}

/// runs one tape in a forked child
enum Try {
    Pass,
    Fail(String, Vec<u32>, Vec<u8>),
    Harness(String),
}
fn try_tape(def: &PropDef, sut: &dyn Sut, tape: &[u32], dict: &Dict, ctl: Ctl, thorough: bool, out: &str, cpu: f64) -> Try {
    ctl.set(1, 0);
    ctl.set(8, 0);
    let path = format!("{}.try", out);
    let _ = std::fs::remove_file(&path);
    match sys::do_fork() {
        sys::Fork::Child => {
            sys::limits(4 << 30);
            sys::quiet_stderr();
            let guard = Guard { inner: sut, ctl };
            let mut src = Src::replay(tape.to_vec(), None, dict);
            src.shm = Some(ctl.shm());
            let r = one(def, &guard, src, thorough);
            let t = match r.fail.as_ref().filter(|m| !m.starts_with("HARNESS")) {
                None => "pass\n".to_string(),
                Some(m) => format!(
                    "fail\n{}\n{}\n{}\n",
                    tohex(m.as_bytes()),
                    r.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
                    tohex(&r.obs.input)
                ),
            };
            let _ = std::fs::write(&path, t);
            sys::exit_now(0);
        }
        sys::Fork::Parent(pid) => {
            let t0 = Instant::now();
            let end = loop {
                if let Some(e) = sys::poll(pid) {
                    break Some(e);
                }
                let ms = t0.elapsed().as_millis();
                if ms > 2000 && sys::cpu_secs(pid) > cpu {
                    sys::kill9(pid);
                    sys::wait(pid);
                    break None;
                }
                std::thread::sleep(Duration::from_micros(if ms < 20 { 200 } else { 5000 }));
            };
            match end {
                Some(sys::End::Exit(0)) => {
                    let t = std::fs::read_to_string(&path).unwrap_or_default();
                    let l: Vec<&str> = t.lines().collect();
                    if l.first() == Some(&"pass") {
                        Try::Pass
                    } else if l.len() >= 4 || (l.first() == Some(&"fail") && l.len() >= 3) {
                        Try::Fail(
                            String::from_utf8_lossy(&unhex(l[1])).into_owned(),
                            l[2].split_whitespace().filter_map(|x| x.parse().ok()).collect(),
                            unhex(l.get(3).unwrap_or(&"")),
                        )
                    } else {
                        Try::Harness("no result".into())
                    }
                }
                Some(e) if ctl.get(1) == 1 => Try::Fail(format!("the process died inside the library: {:?}", e), ctl.tape(), vec![]),
                None if ctl.get(1) == 1 => Try::Fail(format!("no answer after {} s of CPU time", cpu), ctl.tape(), vec![]),
                Some(e) => Try::Harness(format!("{:?}", e)),
                None => Try::Harness("slow outside the library".into()),
            }
        }
    }
}

/// smaller first: shorter, then smaller values
fn better(a: &[u32], b: &[u32]) -> bool {
    (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>())
}

fn shrink(def: &PropDef, sut: &dyn Sut, tape: Vec<u32>, msg: String, dict: &Dict, ctl: Ctl, o: &Opts) -> (Vec<u32>, String, Vec<u8>, u32) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut bmsg = msg;
    let mut binput = Vec::new();
    let mut tries = 0u32;
    let budget = Duration::from_secs(o.shrink_secs);
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>, bmsg: &mut String, binput: &mut Vec<u8>, force: bool| -> bool {
        tries += 1;
        match try_tape(def, sut, cand, dict, ctl, o.thorough, &o.out, HANG_CPU) {
            Try::Fail(m, t, inp) => {
                // the tape actually used, without what was not needed
                let t = if t.is_empty() { cand.to_vec() } else { t };
                let mut t = t;
                while t.last() == Some(&0) {
                    t.pop();
                }
                if force || better(&t, best) {
                    *best = t;
                    *bmsg = m;
                    *binput = inp;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    let start = best.clone();
    // what depends on the state of the process may need several goes
    if !(0..12).any(|_| attempt(&start, &mut best, &mut bmsg, &mut binput, true)) {
        return (best, bmsg, binput, tries);
    }
    if bmsg.starts_with("no answer") {
        return (best, bmsg, binput, tries);
    }
    loop {
        let before = best.clone();
        // remove spans
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if !attempt(&c, &mut best, &mut bmsg, &mut binput, false) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero spans
        let mut size = 16;
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt(&c, &mut best, &mut bmsg, &mut binput, false);
                }
                i += size;
            }
            size /= 4;
        }
        // make single values smaller
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] && t0.elapsed() < budget {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut bmsg, &mut binput, false) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() >= budget {
            break;
        }
    }
    (best, bmsg, binput, tries)
}

/// runs the cases of one worker again, up to case i: does one fail?
fn again(w: usize, def: &PropDef, sut: &dyn Sut, o: &Opts, ctl: Ctl, i: u64) -> bool {
    let o2 = Opts { prop: o.prop.clone(), out: format!("{}.again", o.out), dict: o.dict.clone(), cases: i + 1, max_secs: 300, ..*o };
    let path = format!("{}.w{}", o2.out, w);
    let _ = std::fs::remove_file(&path);
    ctl.set(1, 0);
    let end = match sys::do_fork() {
        sys::Fork::Child => {
            sys::limits(4 << 30);
            worker(w, def, sut, &o2, ctl, Instant::now());
            sys::exit_now(0);
        }
        sys::Fork::Parent(p) => sys::wait(p),
    };
    let t = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    (end == sys::End::Exit(0) && t.contains("\nfail ")) || (end != sys::End::Exit(0) && ctl.get(1) == 1)
}
/// replays the cases of one worker up to a case
pub fn replay_history(sut: &dyn Sut, o: &Opts, w: usize, i: u64) -> i32 {
    let Some(def) = props::find(&o.prop) else { return 2 };
    let mem = sys::shared(CTL_WORDS * 4) as *mut u32;
    if (0..3).any(|_| again(w, def, sut, o, Ctl(mem), i)) {
        println!("replay: it fails again after the cases before it");
        1
    } else {
        println!("replay: the property holds on this history");
        0
    }
}

/// 0 held, 1 violated, 2 the harness is at fault
pub fn run(sut: &dyn Sut, o: &Opts) -> i32 {
    let Some(def) = props::find(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        return 2;
    };
    let t0 = Instant::now();
    let mem = sys::shared(WORKERS * CTL_WORDS * 4) as *mut u32;
    let ctl: Vec<Ctl> = (0..WORKERS).map(|w| Ctl(unsafe { mem.add(w * CTL_WORDS) })).collect();
    let mut pids: Vec<Option<i32>> = Vec::new();
    for w in 0..WORKERS {
        let _ = std::fs::remove_file(format!("{}.w{}", o.out, w));
        match sys::do_fork() {
            sys::Fork::Child => {
                sys::limits(4 << 30);
                worker(w, def, sut, o, ctl[w], t0);
                sys::exit_now(0);
            }
            sys::Fork::Parent(p) => pids.push(Some(p)),
        }
    }
    let mut fails: Vec<(u64, String, Vec<u32>)> = Vec::new();
    let mut harness: Option<String> = None;
    let mut last: Vec<(u32, f64)> = vec![(u32::MAX, 0.0); WORKERS];
    let mut stopping: Option<Instant> = None;
    let mut tick = 0u64;
    while pids.iter().any(|p| p.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        tick += 1;
        for w in 0..WORKERS {
            let Some(pid) = pids[w] else { continue };
            if let Some(end) = sys::poll(pid) {
                pids[w] = None;
                if end != sys::End::Exit(0) {
                    let case = ctl[w].get(0) as u64;
                    if ctl[w].get(1) == 1 {
                        fails.push((case, format!("the process died inside the library: {:?}", end), ctl[w].tape()));
                    } else {
                        harness = Some(format!("worker {} ended with {:?} in case {}", w, end, case));
                    }
                    stopping.get_or_insert(Instant::now());
                } else if std::fs::read_to_string(format!("{}.w{}", o.out, w)).map(|t| t.contains("\nfail ")).unwrap_or(false) {
                    stopping.get_or_insert(Instant::now());
                }
                continue;
            }
            if tick % 25 == 0 {
                let done = ctl[w].get(2);
                let cpu = sys::cpu_secs(pid);
                if last[w].0 != done {
                    last[w] = (done, cpu);
                } else if cpu - last[w].1 > HANG_CPU {
                    let in_sut = ctl[w].get(1) == 1;
                    sys::kill9(pid);
                    sys::wait(pid);
                    pids[w] = None;
                    let case = ctl[w].get(0) as u64;
                    if in_sut {
                        fails.push((case, format!("no answer after {} s of CPU time", HANG_CPU), ctl[w].tape()));
                    } else {
                        harness = Some(format!("case {} is slow outside the library", case));
                    }
                    stopping.get_or_insert(Instant::now());
                }
            }
        }
        if let Some(t) = stopping {
            if t.elapsed() > Duration::from_millis(1500) {
                for p in pids.iter_mut() {
                    if let Some(pid) = p.take() {
                        sys::kill9(pid);
                        sys::wait(pid);
                    }
                }
            }
        }
    }
    // merge
    let mut st = [0u64; 8];
    let mut labels: BTreeMap<usize, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..WORKERS {
        let p = format!("{}.w{}", o.out, w);
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        let mut f: Option<(u64, String)> = None;
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("stat ") {
                for (k, v) in x.split(' ').enumerate() {
                    let v: u64 = v.parse().unwrap_or(0);
                    if k == 5 {
                        st[k] = st[k].max(v);
                    } else {
                        st[k] += v;
                    }
                }
            } else if let Some(x) = l.strip_prefix("label ") {
                let mut it = x.split(' ');
                let k: usize = it.next().unwrap().parse().unwrap();
                *labels.entry(k).or_default() += it.next().unwrap().parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("sample ") {
                let (i, s) = x.split_once(' ').unwrap_or((x, ""));
                samples.push((i.parse().unwrap_or(0), s.to_string()));
            } else if let Some(x) = l.strip_prefix("fail ") {
                let (i, m) = x.split_once(' ').unwrap();
                f = Some((i.parse().unwrap(), String::from_utf8_lossy(&unhex(m)).into_owned()));
            } else if let Some(x) = l.strip_prefix("tape ") {
                let (i, m) = f.take().unwrap();
                fails.push((i, m, x.split_whitespace().filter_map(|x| x.parse().ok()).collect()));
            } else if l == "tape" {
                let (i, m) = f.take().unwrap();
                fails.push((i, m, vec![]));
            } else if let Some(x) = l.strip_prefix("h ") {
                hashes.insert(u64::from_str_radix(x, 16).unwrap_or(0));
            }
        }
    }
    samples.sort();
    fails.sort();
    // the harness contradicting itself is never a violation
    if let Some(p) = fails.iter().position(|f| f.1.starts_with("HARNESS")) {
        let (i, m, _) = fails.remove(p);
        harness = Some(format!("case {}: {}", i, m));
    }
    let mut fail_json = "null".to_string();
    let mut code = 0;
    if let (Some(h), true) = (&harness, fails.is_empty()) {
        eprintln!("HARNESS ERROR ({} {}): {}", o.prop, sut.label(), h);
        code = 2;
    }
    if let Some((i, m, tape)) = fails.into_iter().next() {
        let dict = load_dict(&o.dict);
        let (tape, msg, input, tries) = shrink(def, sut, tape, m.clone(), &dict, ctl[0], o);
        if input.is_empty() && !msg.starts_with("the process died") && !msg.starts_with("no answer") && tries >= 12 {
            // it does not fail on its own: does it after the cases before it?
            let w = (i % WORKERS as u64) as usize;
            let hist = (0..3).any(|_| again(w, def, sut, o, ctl[0], i));
            // a wrong answer that was seen once was given by the code under test, which then depends on
            // addresses, hash seeds or the like; only a time limit can be exceeded by accident
            if hist || !(m.starts_with("no answer") || m.contains("ms of CPU time")) {
                code = 1;
                fail_json = format!(
                    "{{\"case\":{},\"message\":{},\"first_message\":{},\"history\":{},\"tape\":[],\"input\":\"\",\"input_hex\":\"\",\"shrink_tries\":{}}}",
                    i,
                    json_str(&format!("{} ({})", m, if hist { "only after the cases before it in the same process" } else { "not every time" })),
                    json_str(&m),
                    w,
                    tries
                );
            } else {
                eprintln!("HARNESS ERROR ({} {}): case {} failed once and not again: {}", o.prop, sut.label(), i, m);
                code = 2;
            }
        } else {
            code = 1;
            fail_json = format!(
                "{{\"case\":{},\"message\":{},\"first_message\":{},\"tape\":[{}],\"input\":{},\"input_hex\":\"{}\",\"shrink_tries\":{}}}",
                i,
                json_str(&msg),
                json_str(&m),
                tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                json_str(&clip(&input, 4000)),
                tohex(&input[..input.len().min(100_000)]),
                tries
            );
        }
    }
    let lab = labels
        .iter()
        .map(|(k, n)| format!("{}:{}", json_str(def.labels.get(*k).copied().unwrap_or("?")), n))
        .collect::<Vec<_>>()
        .join(",");
    let smp = samples
        .iter()
        .take(60)
        .map(|(i, s)| format!("{{\"case\":{},\"input\":{}}}", i, json_str(s)))
        .collect::<Vec<_>>()
        .join(",");
    let _ = std::fs::remove_file(format!("{}.try", o.out));
    let t = format!(
        "{{\"prop\":{},\"set\":{},\"seed\":{},\"planned\":{},\"evaluations\":{},\"unspecified\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"mutated\":{},\"corpus\":{},\"edges\":{},\"counters\":{},\"bytes\":{},\"self_contradictions\":{},\"secs\":{:.1},\"rule\":{},\"labels\":{{{}}},\"samples\":[{}],\"fail\":{},\"code\":{}}}\n",
        json_str(&o.prop), json_str(sut.label()), o.seed, o.cases, st[0], st[1], st[2], hashes.len(), st[3], st[4], st[5],
        cov::counters().len(), st[6], st[7], t0.elapsed().as_secs_f64(), json_str(def.rule), lab, smp, fail_json, code
    );
    std::fs::write(&o.out, t).expect("out");
    code
}

/// replays a tape: 1 when it still fails
pub fn replay(sut: &dyn Sut, o: &Opts, tape: Vec<u32>) -> i32 {
    let Some(def) = props::find(&o.prop) else { return 2 };
    let mem = sys::shared(CTL_WORDS * 4) as *mut u32;
    let dict = load_dict(&o.dict);
    match try_tape(def, sut, &tape, &dict, Ctl(mem), o.thorough, &o.out, HANG_CPU) {
        Try::Pass => {
            println!("replay: the property holds on this input");
            0
        }
        Try::Fail(m, _, input) => {
            println!("replay: {}\ninput: {}", m, esc(&input));
            1
        }
        Try::Harness(m) => {
            eprintln!("HARNESS ERROR: {}", m);
            2
        }
    }
}

/// prints one generated case
pub fn show(sut: &dyn Sut, o: &Opts, from: u64, n: u64) {
    let def = props::find(&o.prop).expect("property");
    let dict = load_dict(&o.dict);
    let mem = sys::shared(CTL_WORDS * 4) as *mut u32;
    for i in from..from + n {
        let guard = Guard { inner: sut, ctl: Ctl(mem) };
        let out = one(def, &guard, Src::fresh(case_seed(o.seed, &o.prop, i), &dict), o.thorough);
        println!(
            "--- {} gray={} nontrivial={} labels={:x} draws={} {}\n{}\n{}",
            i,
            out.obs.gray,
            out.obs.nontrivial,
            out.obs.labels,
            out.tape.len(),
            out.obs.note,
            esc(&out.obs.input),
            out.fail.unwrap_or_default()
        );
    }
}
