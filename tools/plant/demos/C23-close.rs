#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    e.run.world.borrow_mut().buffered = true;
    e.c.close().unwrap();
    let w = e.run.world.borrow();
    expect(w.flushed == w.out.len(), "close_notify stays in the buffer");
}
