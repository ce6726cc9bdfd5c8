#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for n in [0usize, 1 << 16, (1 << 21) - 1, 1 << 21, (1 << 21) + 77] {
        let m = pattern(1, n);
        expect(husk::crypto::sha2::sha256(&m) == sha256(&m), "wrong digest");
    }
}
