//! The observer: every basic block entered, every address loaded from or stored to and every
//! divisor, while tracing is on, folded into a hash. Heap addresses come from an arena that is reset
//! for every execution, stack addresses are taken relative to the start of the execution, so two
//! executions that do the same thing give the same trace.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const ARENA: usize = 256 << 20;
const LOG: usize = 1 << 22;

struct T {
    on: Cell<bool>,
    take: Cell<bool>,
    h: Cell<u64>,
    blocks: Cell<u64>,
    mem: Cell<u64>,
    arena: Cell<usize>,
    used: Cell<usize>,
    sp: Cell<usize>,
    log: Cell<bool>,
    events: UnsafeCell<Vec<(u8, u64)>>,
}

thread_local! {
    static S: T = const { T { on: Cell::new(false), take: Cell::new(false), h: Cell::new(0), blocks: Cell::new(0), mem: Cell::new(0), arena: Cell::new(0),
        used: Cell::new(0), sp: Cell::new(0), log: Cell::new(false), events: UnsafeCell::new(Vec::new()) } };
}

#[inline(always)]
fn put(s: &T, kind: u8, x: u64) {
    let v = (s.h.get() ^ x ^ (kind as u64) << 56).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    s.h.set(v ^ v >> 29);
    if s.log.get() {
        s.on.set(false);
        let was = s.take.replace(false);
        let e = unsafe { &mut *s.events.get() };
        if e.len() < LOG {
            e.push((kind, x));
        }
        s.take.set(was);
        s.on.set(true);
    }
}

#[inline(always)]
fn addr(kind: u8, a: usize) {
    let _ = S.try_with(|s| {
        if s.on.get() {
            s.mem.set(s.mem.get() + 1);
            let base = s.arena.get();
            let x = if a >= base && a < base + ARENA {
                (1u64 << 48) + (a - base) as u64
            } else {
                let d = a.wrapping_sub(s.sp.get()) as isize;
                if d.abs() < 64 << 20 {
                    (2u64 << 48).wrapping_add(d as u64)
                } else {
                    a as u64
                }
            };
            put(s, kind, x);
        }
    });
}

#[no_mangle]
pub extern "C" fn mc_trace_pc_from(ra: u64) {
    let _ = S.try_with(|s| {
        if s.on.get() {
            s.blocks.set(s.blocks.get() + 1);
            put(s, 1, ra);
        }
    });
}
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "mov rdi, [rsp]",
    "jmp {f}",
    f = sym mc_trace_pc_from
);

macro_rules! mem { ($k:expr; $($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n(a: usize) { addr($k, a) } )* } }
mem!(2; __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16);
mem!(3; __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

fn value(k: u8, v: u64) {
    let _ = S.try_with(|s| {
        if s.on.get() {
            put(s, k, v);
        }
    });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(v: u32) {
    value(4, v as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(v: u64) {
    value(4, v)
}

/// Slice comparison stops at the first difference: its position is what an observer learns.
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    let mut r = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            r = x as i32 - y as i32;
            break;
        }
        i += 1;
    }
    value(5, (n as u64) << 32 | i as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

pub struct Arena;

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = S.try_with(|s| {
            if !s.take.get() || s.arena.get() == 0 {
                return None;
            }
            let at = (s.used.get() + l.align() - 1) & !(l.align() - 1);
            if at + l.size() > ARENA {
                return None;
            }
            s.used.set(at + l.size());
            if s.on.get() {
                put(s, 6, l.size() as u64);
            }
            Some((s.arena.get() + at) as *mut u8)
        });
        match r {
            Ok(Some(p)) => p,
            _ => System.alloc(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let mine = S.try_with(|s| {
            let b = s.arena.get();
            b != 0 && (p as usize) >= b && (p as usize) < b + ARENA
        });
        if mine != Ok(true) {
            System.dealloc(p, l)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Trace {
    pub hash: u64,
    pub blocks: u64,
    pub mem: u64,
}

/// Start an execution on this thread: nothing of the previous one may be alive any more.
pub fn reset() {
    S.with(|s| {
        s.on.set(false);
        s.take.set(false);
        if s.arena.get() == 0 {
            let l = Layout::from_size_align(ARENA, 1 << 12).unwrap();
            s.arena.set(unsafe { System.alloc(l) } as usize);
        }
        s.used.set(0);
        s.h.set(0);
        s.blocks.set(0);
        s.mem.set(0);
    })
}

/// Trace one call.
#[inline(never)]
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    let marker = 0u64;
    S.with(|s| {
        s.sp.set(&marker as *const u64 as usize);
        s.take.set(true);
        s.on.set(true);
    });
    let r = f();
    S.with(|s| {
        s.on.set(false);
        s.take.set(false);
    });
    std::hint::black_box(&marker);
    r
}

/// Build the operands of a traced call, so that they lie at the same addresses every time.
pub fn prepare<R>(f: impl FnOnce() -> R) -> R {
    S.with(|s| s.take.set(true));
    let r = f();
    S.with(|s| s.take.set(false));
    r
}

/// The harness' own work inside a traced call.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let was = S.with(|s| (s.on.replace(false), s.take.replace(false)));
    let r = f();
    S.with(|s| {
        s.take.set(was.1);
        s.on.set(was.0);
    });
    r
}

pub fn take() -> Trace {
    S.with(|s| Trace { hash: s.h.get(), blocks: s.blocks.get(), mem: s.mem.get() })
}

pub fn log(on: bool) -> Vec<(u8, u64)> {
    S.with(|s| {
        s.log.set(on);
        std::mem::take(unsafe { &mut *s.events.get() })
    })
}
