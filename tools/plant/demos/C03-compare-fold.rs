#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let run = peer(cfg.clone(), flight_recs(&cfg), |s| {
        let mut m = s.finished()?;
        m[7] ^= 0x04;
        let mut f = rec(CCS, &[1]);
        f.extend(s.seal(HS, &m));
        Some(f)
    });
    expect(run.connect().is_err(), "a wrong Finished was accepted");
}
