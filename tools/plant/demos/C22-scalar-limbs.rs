#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    // which bytes served by the generator change the client's random or key share?
    let go = |script: Vec<u8>| {
        let run = conforming(default_cfg(), vec![], eof);
        let _ = run.connect_scripted(script, 1);
        run.sync();
        let s = run.server.borrow();
        (s.client_random.unwrap(), s.client_point.clone().unwrap())
    };
    let base: Vec<u8> = (0..64u8).map(|i| i + 1).collect();
    let b = go(base.clone());
    expect(b.0.iter().all(|x| *x != 0), "the client random has constant bytes");
    for i in 0..64 {
        let mut s = base.clone();
        s[i] ^= 0x10;
        expect(go(s) != b, "a generator byte is not used");
    }
}
