//! The few system calls the engine needs, declared by hand (no libc crate is required offline).
use std::os::raw::{c_char, c_int, c_long, c_void};
extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int;
    fn munmap(addr: *mut c_void, len: usize) -> c_int;
    fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn close(fd: c_int) -> c_int;
}
pub enum Fork {
    Child,
    Parent(i32),
}
pub fn do_fork() -> Fork {
    match unsafe { fork() } {
        0 => Fork::Child,
        p if p > 0 => Fork::Parent(p),
        _ => panic!("fork failed"),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}
fn decode(st: c_int) -> End {
    if st & 0x7f == 0 {
        End::Exit((st >> 8) & 0xff)
    } else {
        End::Signal(st & 0x7f)
    }
}
pub fn poll(pid: i32) -> Option<End> {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == pid {
        Some(decode(st))
    } else if r < 0 {
        Some(End::Exit(255))
    } else {
        None
    }
}
pub fn wait(pid: i32) -> End {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            return decode(st);
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return End::Exit(255);
        }
    }
}
pub fn kill9(pid: i32) {
    unsafe {
        kill(pid, 9);
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}
/// zeroed memory shared with forked children
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}
/// CPU seconds used so far by a process
pub fn cpu_secs(pid: i32) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let Some(k) = t.rfind(')') else { return 0.0 };
    let f: Vec<&str> = t[k + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
pub fn limits(mem: u64) {
    unsafe {
        setrlimit(9, &[mem, mem]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}
pub fn quiet_stderr() {
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr() as *const c_char, 1);
        if fd >= 0 {
            dup2(fd, 2);
            close(fd);
        }
    }
}
/// A copy of some bytes that ends (or starts) right at a page nobody may touch.
pub struct Fenced {
    map: *mut u8,
    len: usize,
    at: usize,
    n: usize,
}
impl Fenced {
    pub fn new(d: &[u8], at_end: bool) -> Fenced {
        let pages = (d.len() + 4095) / 4096;
        let len = (pages + 2) * 4096;
        unsafe {
            let map = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0) as *mut u8;
            assert!(map as isize != -1, "mmap failed");
            let at = if at_end { 4096 + pages * 4096 - d.len() } else { 4096 };
            std::ptr::copy_nonoverlapping(d.as_ptr(), map.add(at), d.len());
            mprotect(map as *mut c_void, 4096, 0);
            mprotect(map.add(len - 4096) as *mut c_void, 4096, 0);
            Fenced { map, len, at, n: d.len() }
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.map.add(self.at), self.n) }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map as *mut c_void, self.len);
        }
    }
}
