//! Output sinks.
use crate::sc::Dig;
use core::fmt::{self, Write};

/// A healthy, bounded, heap-free sink that keeps only a hash of the text.
pub struct HashSink {
    pub h: u64,
    pub n: u64,
}
impl Write for HashSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.n += s.len() as u64;
        Ok(())
    }
}
pub struct Rendered {
    pub h: u64,
    pub n: u64,
    pub ok: bool,
}
impl Dig for Rendered {
    fn dig(&self, out: &mut Vec<u64>) {
        out.push(self.h);
        out.push(self.n);
        out.push(self.ok as u64);
    }
}
#[inline(never)]
pub fn render(a: fmt::Arguments) -> Rendered {
    let mut s = HashSink { h: 0xcbf29ce484222325, n: 0 };
    let ok = s.write_fmt(a).is_ok();
    Rendered { h: s.h, n: s.n, ok }
}
thread_local! {
    static COMP_FAIL: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };
}
/// Called by simulated components when they are rendered.
pub fn component_fmt() -> fmt::Result {
    crate::hook::ev0();
    COMP_FAIL.with(|c| {
        let k = c.get();
        if k == 0 {
            return Ok(());
        }
        c.set(k - 1);
        if k == 1 {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    })
}
/// The k-th component rendered from now on reports an error (0: never).
pub fn fail_component(k: u32) {
    COMP_FAIL.with(|c| c.set(k));
}
/// How far the armed component error still is (0: it fired, or none was armed).
pub fn component_left() -> u32 {
    COMP_FAIL.with(|c| c.get())
}
