#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let mut f = Vec::new();
    for m in [cfg.server_hello(), cfg.certificate(), cfg.ske(), hs(0, &[])] {
        f.extend(rec(HS, &m));
    }
    let run = peer(cfg, f, good_fin);
    expect(run.connect().is_err(), "established without ServerHelloDone");
}
