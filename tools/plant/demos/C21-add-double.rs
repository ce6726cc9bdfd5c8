#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use mc::num::*;
fn main() {
    let c = curve();
    for k in 0..8u32 {
        let s = &c.n + BigUint::from(k);
        let got = husk::crypto::p256::G.mult_scalar(&to_int(&s)).normalize();
        let want = c.mul(&BigUint::from(k), &c.g());
        let want = want.unwrap_or((BigUint::from(0u32), BigUint::from(0u32)));
        expect((to_big(&got.x), to_big(&got.y)) == want, "wrong multiple");
    }
}
