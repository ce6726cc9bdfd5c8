#![allow(unused_imports, non_upper_case_globals)]
// Every basic block of husk calls __sanitizer_cov_trace_pc (see kit-wrap.sh); here they are counted.
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::hint::black_box;

#[no_mangle]
pub static mut MC_COUNT: u64 = 0;
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "inc qword ptr [rip + MC_COUNT]",
    "ret"
);

#[inline(never)]
fn blocks(f: impl FnOnce()) -> u64 {
    unsafe {
        let p = &raw mut MC_COUNT;
        let a = p.read_volatile();
        f();
        p.read_volatile() - a
    }
}

fn main() {
    let a = pattern(1, 12);
    let cost = |i: usize| {
        let mut b = a.clone();
        b[i] ^= 1;
        blocks(|| drop(black_box(husk::util::crypto_compare(black_box(&a), black_box(&b)))))
    };
    let c: Vec<u64> = (0..12).map(cost).collect();
    expect(c[0] > 0, "nothing is counted");
    expect(c.iter().all(|x| *x == c[0]), "the work done by the comparison shows where the difference is");
}
