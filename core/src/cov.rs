//! Coverage feedback: the code under test is compiled with LLVM's SanitizerCoverage and calls these.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static START: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);
pub const CMPS: usize = 1 << 14;
/// closeness reached at comparisons with constants, by (constant, closeness) hash
pub static mut CMP_HIT: [u8; CMPS] = [0; CMPS];
pub static mut CONSTS: [u64; 1024] = [0; 1024];
pub static mut NCONSTS: usize = 0;

/// comparisons the code under test has made
pub static mut STEPS: u64 = 0;
pub fn steps() -> u64 {
    unsafe { STEPS }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    if START.load(Relaxed) == 0 && b > a {
        START.store(a as usize, Relaxed);
        LEN.store(b as usize - a as usize, Relaxed);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_indir(_a: usize) {}
// ---------------------------------------------------------------- schedules
/// One thread at a time runs the code under test; at a drawn number of comparisons another one goes on.
pub mod sched {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::Relaxed};
    use std::sync::{Condvar, Mutex};
    use std::time::Duration;
    static ON: AtomicBool = AtomicBool::new(false);
    static LEFT: AtomicU32 = AtomicU32::new(0);
    static TICKS: AtomicUsize = AtomicUsize::new(0);
    struct St {
        turn: usize,
        alive: u64,
        script: Vec<(u32, u32)>,
        pos: usize,
        switches: usize,
    }
    static ST: Mutex<St> = Mutex::new(St { turn: 0, alive: 0, script: Vec::new(), pos: 0, switches: 0 });
    static CV: Condvar = Condvar::new();
    /// how rarely (0: never) an access to a variable of the program, not of a thread, passes the processor on
    static EVERY: AtomicU32 = AtomicU32::new(0);
    static DRAW: AtomicU32 = AtomicU32::new(1);
    thread_local! {
        static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    }
    pub fn begin(n: usize, script: &[(u32, u32)]) {
        let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
        *s = St { turn: 0, alive: (1 << n) - 1, script: script.to_vec(), pos: 0, switches: 0 };
        LEFT.store(script.first().map_or(u32::MAX, |x| x.0), Relaxed);
        ON.store(true, Relaxed);
    }
    pub fn accesses(every: u32, seed: u32) {
        EVERY.store(every, Relaxed);
        DRAW.store(seed | 1, Relaxed);
    }
    extern "C" {
        #[link_name = "__data_start"]
        static DATA: u8;
        #[link_name = "_end"]
        static END: u8;
    }
    /// the code under test reads or writes there
    #[inline(always)]
    pub fn access(a: usize) {
        if ON.load(Relaxed) && a >= &raw const DATA as usize && a < &raw const END as usize {
            shared_access();
        }
    }
    #[cold]
    fn shared_access() {
        let me = ME.with(|m| m.get());
        let every = EVERY.load(Relaxed);
        if me == usize::MAX || every == 0 {
            return;
        }
        TICKS.fetch_add(1, Relaxed);
        let d = DRAW.load(Relaxed).wrapping_mul(1664525).wrapping_add(1013904223);
        DRAW.store(d, Relaxed);
        if (d >> 16) % every != 0 {
            return;
        }
        let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
        if s.turn != me {
            return wait(s, me);
        }
        let others = s.alive & !(1 << me);
        if others == 0 {
            return;
        }
        let k = (d >> 8) % others.count_ones();
        s.turn = (0..64).filter(|t| others >> t & 1 == 1).nth(k as usize).unwrap();
        s.switches += 1;
        CV.notify_all();
        wait(s, me);
    }
    /// ends the schedule: how many times the threads changed
    pub fn end() -> usize {
        ON.store(false, Relaxed);
        ST.lock().unwrap_or_else(|e| e.into_inner()).switches
    }
    fn next(s: &mut St, me: usize) {
        if s.alive == 0 {
            return;
        }
        let (len, who) = s.script.get(s.pos).copied().unwrap_or((u32::MAX, 0));
        s.pos += 1;
        let n = s.alive.count_ones();
        let mut k = who % n;
        for t in 0..64 {
            if s.alive >> t & 1 == 1 {
                if k == 0 {
                    s.turn = t;
                    break;
                }
                k -= 1;
            }
        }
        if s.turn != me {
            s.switches += 1;
        }
        LEFT.store(len, Relaxed);
    }
    fn wait(mut s: std::sync::MutexGuard<St>, me: usize) {
        let mut seen = TICKS.load(Relaxed);
        while s.turn != me {
            let (g, t) = CV.wait_timeout(s, Duration::from_millis(30)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if t.timed_out() {
                let now = TICKS.load(Relaxed);
                if now == seen && s.turn != me {
                    // whoever has the turn waits for something: go on without it
                    s.turn = me;
                    LEFT.store(1000, Relaxed);
                }
                seen = now;
            }
        }
    }
    /// a thread of the schedule starts
    pub fn enter(me: usize) {
        ME.with(|m| m.set(me));
        let s = ST.lock().unwrap_or_else(|e| e.into_inner());
        wait(s, me);
    }
    pub fn leave() {
        let me = ME.with(|m| m.replace(usize::MAX));
        let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
        s.alive &= !(1 << me);
        if s.turn == me {
            next(&mut s, me);
        }
        CV.notify_all();
    }
    #[inline(always)]
    pub fn point() {
        if ON.load(Relaxed) {
            slow();
        }
    }
    #[cold]
    fn slow() {
        let me = ME.with(|m| m.get());
        if me == usize::MAX {
            return;
        }
        TICKS.fetch_add(1, Relaxed);
        let l = LEFT.load(Relaxed);
        if l > 0 {
            LEFT.store(l - 1, Relaxed);
            return;
        }
        let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
        if s.turn == me {
            next(&mut s, me);
            if s.turn == me {
                return;
            }
            CV.notify_all();
        }
        wait(s, me);
    }
}
#[inline(always)]
fn konst(c: u64, v: u64, bits: u32) {
    // how many low-order bits are left to get right
    let d = 64 - (c ^ v).leading_zeros();
    let h = (c.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize;
    sched::point();
    unsafe {
        STEPS += 1;
        CMP_HIT[(h.wrapping_add(d as usize * 131)) & (CMPS - 1)] = 1;
        if bits >= 16 && c > 1 && NCONSTS < 1024 && c < 1 << 31 {
            for i in 0..NCONSTS {
                if CONSTS[i] == c {
                    return;
                }
            }
            CONSTS[NCONSTS] = c;
            NCONSTS += 1;
        }
    }
}
macro_rules! c {
    ($n:ident, $t:ty, $b:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: $t, b: $t) {
            konst(a as u64, b as u64, $b)
        }
    };
}
macro_rules! v {
    ($n:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: $t, _b: $t) {
            sched::point();
            STEPS += 1;
        }
    };
}
c!(__sanitizer_cov_trace_const_cmp1, u8, 8);
c!(__sanitizer_cov_trace_const_cmp2, u16, 16);
c!(__sanitizer_cov_trace_const_cmp4, u32, 32);
c!(__sanitizer_cov_trace_const_cmp8, u64, 64);
v!(__sanitizer_cov_trace_cmp1, u8);
v!(__sanitizer_cov_trace_cmp2, u16);
v!(__sanitizer_cov_trace_cmp4, u32);
v!(__sanitizer_cov_trace_cmp8, u64);
v!(__sanitizer_cov_trace_div4, u32);
v!(__sanitizer_cov_trace_div8, u64);
macro_rules! a {
    ($($n:ident)*) => {
        $(#[no_mangle]
        pub unsafe extern "C" fn $n(a: *const u8) {
            sched::access(a as usize)
        })*
    };
}
a!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
a!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_gep(_a: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _c: *const u64) {
    sched::point();
    STEPS += 1;
}

pub fn counters() -> &'static mut [u8] {
    let n = LEN.load(Relaxed);
    if n == 0 {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(START.load(Relaxed) as *mut u8, n) }
}
/// What a corpus has seen so far.
pub struct Seen {
    map: Vec<u8>,
    cmp: Vec<u8>,
}
impl Seen {
    pub fn new() -> Seen {
        Seen { map: vec![0; counters().len()], cmp: vec![0; CMPS] }
    }
    pub fn clear() {
        counters().fill(0);
        unsafe {
            (*std::ptr::addr_of_mut!(CMP_HIT)).fill(0);
        }
    }
    /// number of new features since `clear`
    pub fn take(&mut self) -> usize {
        let mut new = 0;
        let c = counters();
        for (i, &x) in c.iter().enumerate() {
            if x != 0 {
                let b = match x {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if self.map[i] & b == 0 {
                    self.map[i] |= b;
                    new += 1;
                }
            }
        }
        unsafe {
            let h = &*std::ptr::addr_of!(CMP_HIT);
            for i in 0..CMPS {
                if h[i] != 0 && self.cmp[i] == 0 {
                    self.cmp[i] = 1;
                    new += 1;
                }
            }
        }
        new
    }
    pub fn edges(&self) -> usize {
        self.map.iter().filter(|x| **x != 0).count()
    }
}
pub fn consts() -> Vec<u32> {
    unsafe { (0..NCONSTS).map(|i| CONSTS[i] as u32).collect() }
}
