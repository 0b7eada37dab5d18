//! The few system calls the simulator needs (no libc crate), and process isolation by fork.
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};

#[repr(C)]
struct Timeval {
    s: i64,
    us: i64,
}
#[repr(C)]
struct Itimer {
    interval: Timeval,
    value: Timeval,
}
#[repr(C)]
pub struct Sigaction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn _exit(c: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    fn setitimer(which: i32, new: *const Itimer, old: *mut Itimer) -> i32;
    pub fn sigaction(sig: i32, new: *const Sigaction, old: *mut Sigaction) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn open(p: *const u8, fl: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
pub const SIGTRAP: i32 = 5;
pub const SIGABRT: i32 = 6;
pub const SIGKILL: i32 = 9;
pub const SIGALRM: i32 = 14;
pub const SIGPROF: i32 = 27;

/// errno-free futex.
#[inline]
pub fn futex(addr: &AtomicU32, op: u64, val: u32, ts: *const [i64; 2]) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 202i64 => r, in("rdi") addr as *const AtomicU32, in("rsi") op, in("rdx") val as u64, in("r10") ts, in("r8") 0u64, in("r9") 0u64, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub fn gettid() -> u32 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 186i64 => r, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r as u32
}
fn timer(which: i32, ms: u64) {
    let t = Itimer { interval: Timeval { s: 0, us: 0 }, value: Timeval { s: (ms / 1000) as i64, us: ((ms % 1000) * 1000) as i64 } };
    unsafe {
        setitimer(which, &t, std::ptr::null_mut());
    }
}
pub fn quiet_stderr() {
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
pub fn cpu_ns() -> u64 {
    let mut t = [0i64; 2];
    unsafe {
        crate::world::clock_gettime(2, &mut t);
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
pub fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
pub fn fork_raw() -> i32 {
    let r = unsafe { fork() };
    assert!(r >= 0, "fork failed");
    r
}
pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
    }
}
pub fn die_with_parent() {
    unsafe {
        prctl(1, SIGKILL as u64, 0, 0, 0);
    }
}

const CAP: usize = 8 << 20;
static mut BUFS: [*mut u8; 4] = [std::ptr::null_mut(); 4];
pub static mut LEVEL: usize = 0;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Died {
    /// killed by this signal
    Signal(i32),
    /// used up its processor time
    Cpu,
    /// neither finished nor used processor time
    Stalled,
    Exit(i32),
}
impl Died {
    pub fn class(&self) -> String {
        match self {
            Died::Signal(s) => format!("killed-by-signal-{s}"),
            Died::Cpu => "no-progress".into(),
            Died::Stalled => "blocked".into(),
            Died::Exit(77) => "blocked".into(),
            Died::Exit(c) => format!("exit-{c}"),
        }
    }
}
/// Where the current process has to put its report.
pub fn out_buf() -> *mut u8 {
    unsafe { BUFS[LEVEL - 1] }
}
pub fn put_report(b: &[u8]) {
    let p = out_buf();
    let n = b.len().min(CAP - 16);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        (p as *mut u64).write_volatile(n as u64 + 1);
    }
}
/// Run `f` in a forked copy of this process and return its report.
pub fn isolated(cpu_ms: u64, wall_ms: u64, f: &mut dyn FnMut() -> Vec<u8>) -> Result<Vec<u8>, Died> {
    unsafe {
        let l = LEVEL;
        if BUFS[l].is_null() {
            BUFS[l] = shared(CAP);
        }
        let buf = BUFS[l];
        (buf as *mut u64).write_volatile(0);
        let pid = fork_raw();
        if pid == 0 {
            LEVEL = l + 1;
            die_with_parent();
            timer(2, cpu_ms);
            timer(0, wall_ms);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            match r {
                Ok(b) => {
                    put_report(&b);
                    _exit(0)
                }
                Err(_) => _exit(99),
            }
        }
        let st = wait(pid);
        let sig = st & 0x7f;
        if sig != 0 {
            return Err(match sig {
                SIGPROF => Died::Cpu,
                SIGALRM => Died::Stalled,
                s => Died::Signal(s),
            });
        }
        let n = (buf as *const u64).read_volatile();
        let code = (st >> 8) & 0xff;
        if code != 0 || n == 0 {
            return Err(Died::Exit(code));
        }
        let n = (n - 1) as usize;
        Ok(std::slice::from_raw_parts(buf.add(8), n).to_vec())
    }
}
pub fn store(a: &AtomicU32, v: u32) {
    a.store(v, Ordering::SeqCst);
}
