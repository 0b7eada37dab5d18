//! Instruction-granular control of native code: the x86 trap flag makes every instruction of the
//! library call raise SIGTRAP, and the handler is a scheduling point like any other event.
use crate::hook;
use crate::sys::*;

#[inline(always)]
pub fn on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
pub fn off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
/// The writable data of this process when stepping starts - statics and heap; the stacks of the simulated
/// threads come later: where state that calls could share lives.
static mut DATA: [(u64, u64); 32] = [(0, 0); 32];
fn find_data() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut n = 0;
    // the C library's own data (memcpy looks at its tuning parameters there) is of no interest
    let mut lib = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = match f[0].split_once('-') {
            Some((a, b)) => (u64::from_str_radix(a, 16).unwrap_or(0), u64::from_str_radix(b, 16).unwrap_or(0)),
            None => continue,
        };
        let foreign = f.get(5).map(|x| x.contains(".so")).unwrap_or(a == lib && f.len() == 5);
        lib = if foreign { b } else { 0 };
        if f[1].starts_with("rw") && !foreign && !f.get(5).map(|x| x.starts_with("[stack")).unwrap_or(false) {
            let d = unsafe { &mut *std::ptr::addr_of_mut!(DATA) };
            if n > 0 && d[n - 1].1 == a {
                d[n - 1].1 = b;
            } else if n < d.len() {
                d[n] = (a, b);
                n += 1;
            }
        }
    }
}
/// Does the instruction at `ip` touch this program's writable data (or lock the bus)?  Only used to
/// aim preemptions; a wrong answer costs nothing but luck.
unsafe fn touches_shared(ip: *const u8, g: *const i64) -> bool {
    // order of the saved registers, by hardware number
    const ORDER: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    let reg = |n: usize| unsafe { *g.add(ORDER[n]) as u64 };
    let mut p = ip;
    let (mut rexx, mut rexb) = (0usize, 0usize);
    let mut map = 0u8;
    loop {
        match *p {
            0xF0 => return true,
            0x64 | 0x65 => return false,
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => p = p.add(1),
            _ => break,
        }
    }
    let mut op = *p;
    if op & 0xF0 == 0x40 {
        rexx = ((op >> 1) & 1) as usize;
        rexb = (op & 1) as usize;
        p = p.add(1);
        op = *p;
    }
    if op == 0xC5 {
        p = p.add(2);
        map = 1;
    } else if op == 0xC4 {
        rexx = (!*p.add(1) >> 6 & 1) as usize;
        rexb = (!*p.add(1) >> 5 & 1) as usize;
        map = *p.add(1) & 31;
        p = p.add(3);
    } else if op == 0x0F {
        p = p.add(1);
        map = 1;
        if *p == 0x38 || *p == 0x3A {
            map = 2;
            p = p.add(1);
        }
    }
    op = *p;
    let modrm = match map {
        0 => (op < 0x40 && op & 7 < 4) || matches!(op, 0x63 | 0x69 | 0x6B | 0x80..=0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xD8..=0xDF | 0xF6 | 0xF7 | 0xFE | 0xFF),
        1 => !matches!(op, 0x05 | 0x06 | 0x08 | 0x09 | 0x0B | 0x0D | 0x18..=0x1F | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF),
        _ => true,
    };
    if !modrm || (map == 0 && op == 0x8D) {
        return false;
    }
    let m = *p.add(1);
    let (md, rm) = (m >> 6, (m & 7) as usize);
    if md == 3 {
        return false;
    }
    let mut q = p.add(2);
    let mut a: u64 = 0;
    let mut slack = 0;
    if rm == 4 {
        let sib = *q;
        q = q.add(1);
        let (b, i) = ((sib & 7) as usize, ((sib >> 3) & 7) as usize | rexx << 3);
        if i != 4 {
            a = a.wrapping_add(reg(i) << (sib >> 6));
        }
        if b == 5 && md == 0 {
            a = a.wrapping_add((q as *const i32).read_unaligned() as i64 as u64);
        } else {
            a = a.wrapping_add(reg(b | rexb << 3));
        }
    } else if rm == 5 && md == 0 {
        // relative to the next instruction, whose address is known up to the immediate
        a = (q as u64).wrapping_add(4).wrapping_add((q as *const i32).read_unaligned() as i64 as u64);
        slack = 8;
    } else {
        a = reg(rm | rexb << 3);
    }
    match md {
        1 => a = a.wrapping_add(*(q as *const i8) as i64 as u64),
        2 => a = a.wrapping_add((q as *const i32).read_unaligned() as i64 as u64),
        _ => {}
    }
    let own = std::ptr::addr_of!(hook::STEP_ON) as u64;
    if a == own {
        return false;
    }
    (*std::ptr::addr_of!(DATA)).iter().any(|&(lo, hi)| a + slack >= lo && a < hi)
}
extern "C" fn handler(_s: i32, _i: *const u8, uc: *const u8) {
    let t = hook::th();
    if !t.armed {
        return;
    }
    unsafe {
        if hook::SCHED_ON {
            let g = uc.add(40) as *const i64;
            let ip = *g.add(16) as *const u8;
            if touches_shared(ip, g) {
                crate::sched::hot();
            }
        }
    }
    t.events += 1;
    if t.events > t.budget {
        unsafe { _exit(77) }
    }
    if !t.watch.is_empty() {
        hook::check_watch(t);
    }
    unsafe {
        if hook::SCHED_ON {
            crate::sched::point();
        }
    }
}
pub fn install() {
    let sa = Sigaction { handler: handler as *const () as usize, mask: [0; 16], flags: 0x1000_0004, restorer: 0 };
    find_data();
    unsafe {
        sigaction(SIGTRAP, &sa, std::ptr::null_mut());
    }
}
/// Does the trap flag work here?  Counts the traps of a fixed instruction sequence, in a fork.
pub fn works() -> bool {
    let r = isolated(2000, 5000, &mut || {
        install();
        let t = hook::th();
        t.armed = true;
        t.events = 0;
        t.budget = 1 << 40;
        on();
        for _ in 0..10 {
            unsafe { std::arch::asm!("nop", "nop", "nop") }
        }
        off();
        t.armed = false;
        vec![(t.events > 30) as u8]
    });
    r == Ok(vec![1])
}
