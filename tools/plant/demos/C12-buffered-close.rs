#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    e.send(APP, b"abcdef");
    let mut b = [0u8; 3];
    e.c.read(&mut b).unwrap();
    e.c.close().unwrap();
    expect(alerts(&e.run).len() == 1, "close() sent no close_notify");
}
