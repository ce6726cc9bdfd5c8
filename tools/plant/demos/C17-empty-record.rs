#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    e.send(APP, b"ab");
    e.send(APP, b"");
    e.send(APP, b"cd");
    expect(drain(&mut e.c, 16).0 == b"abcd", "an empty record ended the connection");
}
