#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    // find a server key whose agreement with the client's scripted key starts with a zero byte
    let c = curve();
    let mut script = pattern(1, 32);
    let mut scalar = [0u8; 32];
    scalar[0] = 5;
    script.extend(scalar); // eight little-endian words, least significant first
    let q = c.mul(&BigUint::from(5u32), &c.g());
    let mut d = BigUint::from(2u32);
    let mut s = c.mul(&d, &q);
    let mut found = 0;
    for _ in 0..3000 {
        if be32(&s.as_ref().unwrap().0)[0] == 0 {
            found += 1;
            let run = conforming(default_cfg().with_d(d.clone()), vec![], eof);
            let ok = run.connect_scripted(script.clone(), 1).is_ok();
            expect(ok, "the two ends derived different keys");
        }
        s = c.add(&s, &q);
        d += BigUint::from(1u32);
    }
    assert!(found > 0);
}
