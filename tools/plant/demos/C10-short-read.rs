#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let run = conforming(default_cfg(), vec![(APP, b"hello".to_vec())], eof);
    run.world.borrow_mut().rp.cut_at = vec![4];
    let mut c = match run.connect() {
        Ok(c) => c,
        Err(_) => {
            println!("BROKEN: a split length field breaks the handshake");
            std::process::exit(1)
        }
    };
    expect(drain(&mut c, 16).0 == b"hello", "data lost");
}
