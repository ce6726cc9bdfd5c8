#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut r = [0u8; 16];
    r[0] = 1;
    let s = [0u8; 16];
    let mut m = vec![0u8; 48];
    m[..16].copy_from_slice(&(u128::MAX - 4).to_le_bytes());
    for d in 0..8u8 {
        m[16] = d;
        let t = husk::crypto::poly1305::authenticate(&m, &r, &s);
        expect(t == poly1305_big(&m, &r, &s), "wrong tag");
    }
}
