//! Deterministic stand-in for `getrandom` 0.2 (selected with `[patch.crates-io]` in the harness
//! workspace only).  Each thread has a script of bytes that is served first; afterwards a
//! deterministic stream (splitmix64 of a per-execution seed and a counter) is served.
use std::cell::RefCell;
use std::num::NonZeroU32;

#[derive(Clone)]
struct State {
    script: Vec<u8>,
    pos: usize,
    seed: u64,
    ctr: u64,
    pool: Vec<u8>,
    served: u64,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State { script: Vec::new(), pos: 0, seed: 1, ctr: 0, pool: Vec::new(), served: 0 });
}

/// Reset this thread's random source: `script` first, then the stream of `seed`.
pub fn script(script: Vec<u8>, seed: u64) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.script = script;
        s.pos = 0;
        s.seed = seed;
        s.ctr = 0;
        s.pool.clear();
        s.served = 0;
    })
}

/// A copy of this thread's random source.
pub struct Saved(State);

pub fn save() -> Saved {
    ST.with(|s| Saved(s.borrow().clone()))
}

pub fn restore(x: Saved) {
    ST.with(|s| *s.borrow_mut() = x.0)
}

/// Number of random bytes served since the last `script` call.
pub fn served() -> u64 {
    ST.with(|s| s.borrow().served)
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for b in dest.iter_mut() {
            s.served += 1;
            if s.pos < s.script.len() {
                *b = s.script[s.pos];
                s.pos += 1;
                continue;
            }
            if s.pool.is_empty() {
                let v = mix(mix(s.seed).wrapping_add(s.ctr));
                s.ctr += 1;
                s.pool = v.to_le_bytes().to_vec();
            }
            *b = s.pool.pop().unwrap();
        }
    });
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Error {
        Error(c)
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl std::error::Error for Error {}
