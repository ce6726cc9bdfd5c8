#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let f = cfg.flight();
    for extra in 0..6 {
        let cut = 1 + extra;
        let mut r = rec(HS, &f[..cut]);
        r.extend(rec(HS, &f[cut..]));
        let run = peer(cfg.clone(), r, good_fin);
        expect(run.connect().is_ok(), "fragmentation changed the outcome");
    }
}
