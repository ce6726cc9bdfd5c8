#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    std::thread::spawn(|| {
        let mut cfg = default_cfg();
        cfg.certs = vec![pattern(1, 60_000)];
        let run = peer(cfg.clone(), recs(HS, &cfg.flight(), 1), good_fin);
        expect(run.connect().is_ok(), "a fragmented handshake is refused");
    })
    .join()
    .unwrap();
}
