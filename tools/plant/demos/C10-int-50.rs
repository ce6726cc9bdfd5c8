#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for n in [1, 10, 100] {
        let cfg = default_cfg();
        let run = conforming(cfg, vec![(APP, b"hello".to_vec())], eof);
        run.world.borrow_mut().rp.interrupt_at = vec![50; n];
        let mut c = match run.connect() {
            Ok(c) => c,
            Err(_) => return expect(false, "a handshake is lost to interruptions"),
        };
        expect(drain(&mut c, 16).0 == b"hello", "data lost");
    }
}
