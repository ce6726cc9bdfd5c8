#![allow(unused_imports, non_upper_case_globals)]
// Every basic block of husk calls __sanitizer_cov_trace_pc (see kit-wrap.sh); here the sequence of them is hashed.
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::hint::black_box;

#[no_mangle]
pub static mut MC_COUNT: u64 = 0;
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "mov rax, [rsp]",
    "add rax, [rip + MC_COUNT]",
    "imul rax, rax, 0x1E3779B1",
    "rol rax, 17",
    "mov [rip + MC_COUNT], rax",
    "ret"
);

#[inline(never)]
fn blocks(f: impl FnOnce()) -> u64 {
    unsafe {
        let p = &raw mut MC_COUNT;
        p.write_volatile(1);
        f();
        p.read_volatile()
    }
}

fn main() {
    use husk::crypto::p256::int256::{ONE, P256};
    let mut full = ONE;
    for x in full.v.iter_mut() {
        x.0 = 0x12345678;
    }
    let cost = |a: husk::crypto::p256::int256::Int256| blocks(|| drop(black_box(black_box(&a).inverse())));
    let _ = P256;
    expect(cost(full) > 1, "nothing is counted");
    expect(cost(full) == cost(ONE), "the work done for a field element shows its zero limbs");
}
