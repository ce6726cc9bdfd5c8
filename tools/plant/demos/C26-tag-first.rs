#![allow(unused_imports, non_upper_case_globals)]
// Every basic block of husk calls __sanitizer_cov_trace_pc (see kit-wrap.sh); here they are counted.
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::hint::black_box;

#[no_mangle]
pub static mut MC_COUNT: u64 = 0;
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "inc qword ptr [rip + MC_COUNT]",
    "ret"
);

#[inline(never)]
fn blocks(f: impl FnOnce()) -> u64 {
    unsafe {
        let p = &raw mut MC_COUNT;
        let a = p.read_volatile();
        f();
        p.read_volatile() - a
    }
}

fn main() {
    let suite = husk::cipher::CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
    let key = pattern(1, 32);
    let nonce = pattern(2, 12);
    let ad = pattern(3, 13);
    let cost = |n: usize, bad: bool| {
        let mut ct = aead_seal(&key[..].try_into().unwrap(), &nonce[..].try_into().unwrap(), &pattern(4, n), &ad);
        let l = ct.len();
        ct[l - 1] ^= bad as u8;
        let mut d = suite.new_aead().new_decryptor(key.clone());
        blocks(|| drop(black_box(d.decrypt(&nonce, black_box(&ct), &ad).is_ok()))) as i64
    };
    let extra = |n| cost(n, true) - cost(n, false);
    expect(cost(64, false) > 0, "nothing is counted");
    expect(extra(64) == extra(16000), "a forged record is refused without the work an authentic one takes");
}
