#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    // on a thread with the default stack, as a server or test harness would run it
    std::thread::spawn(|| {
        let mut e = establish(default_cfg(), eof).unwrap();
        let mut b = vec![];
        for _ in 0..30_000 {
            b.extend(e.seal(APP, b""));
        }
        b.extend(e.seal(APP, b"abc"));
        e.push(b);
        let (got, _) = drain(&mut e.c, 16);
        expect(got == b"abc" || got.is_empty(), "wrong data");
    })
    .join()
    .unwrap();
}
