#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let c = curve();
    let p = &c.p;
    let delta = BigUint::from(0x100u32);
    let mut tried = 0;
    for i in 1u32..4000 {
        let x = BigUint::from(i) * BigUint::from(0x1234_5678_9abc_def1u64);
        let rhs = (&x * &x * &x + &c.b) % p;
        let lhs = (&rhs + &delta) % p;
        // differs from rhs only in the second byte of the lowest limb
        if (&lhs ^ &rhs) >> 16u32 != BigUint::from(0u32) || (&lhs ^ &rhs) & BigUint::from(0xffu32) != BigUint::from(0u32) {
            continue;
        }
        let y2 = c.subm(&lhs, &(&x * BigUint::from(3u32)));
        let y = y2.modpow(&((p + BigUint::from(1u32)) >> 2u32), p);
        if (&y * &y) % p != y2 {
            continue;
        }
        tried += 1;
        expect(!c.on_curve(&x, &y), "the demonstration's point is on the curve");
        let pt = encode_pt(&Some((x, y)));
        expect(husk::crypto::p256::NPoint256::from_uncompressed_bytes(&pt).is_none(), "a point off the curve was accepted");
    }
    assert!(tried > 20);
}
