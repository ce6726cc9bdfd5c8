#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let right = curve().lift_x(&BigUint::from(0u32)).unwrap();
    for y in 0..64u32 {
        for add in [BigUint::from(0u32), right.clone()] {
            let y = add + y;
            let mut b = vec![4u8];
            b.extend([0u8; 32]);
            b.extend(be32(&y));
            let ok = husk::crypto::p256::NPoint256::from_uncompressed_bytes(&b).is_some();
            expect(ok == (y == right), "the wrong points with x = 0 are accepted");
        }
    }
}
