#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut cfg = default_cfg();
    let mut f = Vec::new();
    cfg.ext = Some(vec![0, 6, 0, 11, 0, 9, 1, 0]);
    for m in [cfg.server_hello(), cfg.certificate(), cfg.ske(), cfg.shd()] {
        f.extend(rec(HS, &m));
    }
    let run = peer(cfg, f, good_fin);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run.connect().is_ok()));
    expect(r.is_ok(), "the client panicked");
}
