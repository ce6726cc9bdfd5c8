#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    let mut all = Vec::new();
    for i in 0..600u32 {
        let b = i.to_be_bytes();
        e.send(APP, &b);
        all.extend(b);
    }
    let (got, _) = drain(&mut e.c, 4096);
    expect(all == got, "authentic records are not delivered");
}
