#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    for i in 0..66_000u32 {
        e.c.write_all(&[i as u8]).unwrap();
        if i % 1000 == 0 {
            e.run.sync();
        }
    }
    e.run.sync();
    expect(e.run.problems().is_ok(), "a record does not open under its sequence number");
    expect(e.run.server.borrow().app_data().len() == 66_000, "bytes are missing");
}
