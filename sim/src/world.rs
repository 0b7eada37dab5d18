//! The rest of the process's surroundings, as seen from inside a library call: the clock, the
//! environment, the system's random source and the position of the stack.  The library is not
//! supposed to look at any of them; each call is made in a different simulated world so that it
//! shows if it does.  Outside the armed window everything is real.
use crate::hook;
use crate::rng::mix;

/// What the surroundings are, chosen by the plan; 0 is the plain one.
pub fn set(w: u64) {
    hook::th().world = if w == 0 { 0 } else { mix(w) | 1 };
}
fn sys3(n: i64, a: u64, b: u64, c: u64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
/// Every clock: an arbitrary instant that jumps, forwards and backwards, from one reading to the next.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    let th = hook::th();
    if !th.armed {
        return if sys3(228, id as u64, t as u64, 0) < 0 { -1 } else { 0 };
    }
    th.looked += 1;
    let m = if th.world == 0 { 0 } else { mix(th.world ^ th.looked) };
    *t = [1_700_000_000 + (m >> 34) as i64, (m % 1_000_000_000) as i64];
    0
}
/// The environment: in some worlds every variable is set.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let th = hook::th();
    if th.armed {
        th.looked += 1;
        return match th.world % 8 {
            1 | 3 => c"1".as_ptr() as *const u8,
            5 => c"0".as_ptr() as *const u8,
            _ => std::ptr::null(),
        };
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let (mut p, mut n) = (*e, name);
        while *n != 0 && *p == *n {
            p = p.add(1);
            n = n.add(1);
        }
        if *n == 0 && *p == b'=' {
            return p.add(1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
extern "C" {
    static environ: *const *const u8;
}
/// The system's random source.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    // seeded even outside the window: the harness's own hash maps must not depend on it either
    let _ = flags;
    let th = hook::th();
    let w = if th.armed {
        th.looked += 1;
        th.world ^ th.looked
    } else {
        0
    };
    let mut m = mix(w ^ 0xabcdef);
    for i in 0..n {
        if i % 8 == 0 {
            m = mix(m);
        }
        *buf.add(i) = (m >> (8 * (i % 8))) as u8;
    }
    n as isize
}
#[inline(never)]
fn pad<const N: usize>(f: &mut dyn FnMut()) {
    let mut a = [0u8; N];
    std::hint::black_box(&mut a);
    f();
    std::hint::black_box(&mut a);
}
/// Run `f` with the stack somewhere else, in steps of 16 bytes.
#[inline(never)]
pub fn displaced(f: &mut dyn FnMut()) {
    match (hook::th().world >> 8) % 8 {
        0 => f(),
        1 => pad::<16>(f),
        2 => pad::<32>(f),
        3 => pad::<48>(f),
        4 => pad::<64>(f),
        5 => pad::<112>(f),
        6 => pad::<592>(f),
        _ => pad::<4104>(f),
    }
}
