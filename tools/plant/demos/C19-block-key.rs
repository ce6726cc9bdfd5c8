#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let d = pattern(3, 200);
    for n in 0..200 {
        let key = pattern(4, n);
        expect(husk::cipher::prf::hmac_sha256(&key, &d)[..] == hmac(&key, &d)[..], "wrong MAC");
    }
}
