#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut cfg = default_cfg();
    for first in 0..=255u8 {
        cfg.public[0] = first;
        let ok = husk::crypto::p256::NPoint256::from_uncompressed_bytes(&cfg.public).is_some();
        expect(ok == (first == 4), "point encoding accepted under another first byte");
    }
}
