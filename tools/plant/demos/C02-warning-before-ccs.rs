#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let run = peer(cfg.clone(), flight_recs(&cfg), |s| {
        let mut f = rec(ALERT, &[1, 90]);
        f.extend(good_fin(s)?);
        Some(f)
    });
    expect(run.connect().is_err(), "established over an unprotected alert");
}
