#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for d in 0..=255u8 {
        if d == 0 {
            continue;
        }
        let mut e = establish(default_cfg(), eof).unwrap();
        e.send(APP, b"abc");
        e.send(ALERT, &[2, d]);
        e.send(APP, b"def");
        let (got, _) = drain(&mut e.c, 16);
        expect(got == b"abc", "data delivered after a fatal alert");
    }
}
