#![allow(unused_imports, non_upper_case_globals)]
// Every basic block of husk calls __sanitizer_cov_trace_pc (see kit-wrap.sh); here they are counted.
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::hint::black_box;

#[no_mangle]
pub static mut MC_COUNT: u64 = 0;
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "inc qword ptr [rip + MC_COUNT]",
    "ret"
);

#[inline(never)]
fn blocks(f: impl FnOnce()) -> u64 {
    unsafe {
        let p = &raw mut MC_COUNT;
        let a = p.read_volatile();
        f();
        p.read_volatile() - a
    }
}

fn main() {
    use husk::crypto::p256::{int256::ZERO, G};
    let cost = |l: u32| {
        let mut k = ZERO;
        for x in k.v.iter_mut() {
            x.0 = l;
        }
        blocks(|| drop(black_box(G.mult_scalar(black_box(&k)).normalize().to_uncompressed_bytes())))
    };
    expect(cost(1) > 0, "nothing is counted");
    expect(cost(1) == cost(0xffff) && cost(1) == cost(0x80000001), "the work done for a scalar shows its weight");
}
