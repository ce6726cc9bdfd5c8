#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    e.send(APP, b"abc");
    e.send(APP, b"0123456789");
    let mut b = [0u8; 10];
    let n = e.c.read(&mut b).unwrap();
    let (rest, _) = drain(&mut e.c, 10);
    let mut got = b[..n].to_vec();
    got.extend(rest);
    expect(got == b"abc0123456789", "bytes lost between records");
}
