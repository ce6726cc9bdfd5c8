#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut cfg = default_cfg();
    let others = cfg.flight().len() - cfg.certs[0].len();
    cfg.certs = vec![pattern(7, (1 << 14) - others)];
    let f = cfg.flight();
    assert_eq!(f.len(), 1 << 14);
    let run = peer(cfg, rec(HS, &f), good_fin);
    expect(run.connect().is_ok(), "a record of exactly 2^14 bytes was refused");
}
