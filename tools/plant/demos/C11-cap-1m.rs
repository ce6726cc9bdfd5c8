#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for size in [1usize << 20, 1 << 21, 3 << 20] {
        let mut e = establish(default_cfg(), eof).unwrap();
        e.send(APP, b"hello");
        let mut b = vec![0u8; size];
        let n = e.c.read(&mut b).unwrap();
        expect(&b[..n] == b"hello", "nothing read into a large buffer");
    }
}
