#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for copies in 1..4 {
        let mut e = establish(default_cfg(), eof).unwrap();
        for i in 0..4u8 {
            e.send(APP, &[b'a' + i]);
        }
        let hr = e.seal(HS, &[0, 0, 0, 0]);
        for _ in 0..copies {
            e.push(hr.clone());
        }
        e.send(APP, b"end");
        let (got, _) = drain(&mut e.c, 64);
        expect(got == if copies == 1 { b"abcdend".to_vec() } else { b"abcd".to_vec() }, "replayed or lost records");
    }
}
