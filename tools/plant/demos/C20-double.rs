#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use mc::num::*;
fn main() {
    let p = &curve().p;
    let half = (p + BigUint::from(1u32)) >> 1u32;
    for k in 0..64u32 {
        let a = &half + BigUint::from(k);
        let got = to_big(&to_int(&a).double());
        expect(got == (&a + &a) % p, "doubling is not reduced");
    }
}
