#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for seed in 0..400u64 {
        let mut e = establish_seed(default_cfg(), eof, 1).unwrap();
        let mut r = e.seal(APP, b"pay 1 to bob");
        let n = r.len();
        // all pairs of tag bytes, some difference
        let i = (seed as usize / 16) % 16;
        let j = seed as usize % 16;
        if i == j {
            continue;
        }
        r[n - 16 + i] ^= 0x40;
        r[n - 16 + j] ^= 0x40;
        e.push(r);
        let (got, _) = drain(&mut e.c, 64);
        expect(got.is_empty(), "a record with a wrong tag was delivered");
    }
}
