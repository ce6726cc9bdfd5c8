#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let run = conforming(default_cfg(), vec![(APP, b"hello".to_vec())], eof);
    run.world.borrow_mut().wp.max = 1;
    match run.connect() {
        Ok(mut c) => expect(drain(&mut c, 16).0 == b"hello", "data lost"),
        Err(_) => expect(false, "a transport taking one byte per call breaks the handshake"),
    }
}
