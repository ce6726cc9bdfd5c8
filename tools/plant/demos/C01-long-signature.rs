#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for n in [0usize, 1, 64, 128, 256, 384, 512, 513, 1024, 2048, 4096] {
        let mut cfg = default_cfg();
        cfg.sig = pattern(5, n);
        let run = peer(cfg.clone(), flight_recs(&cfg), good_fin);
        expect(run.connect().is_ok(), "a long signature is refused");
    }
}
