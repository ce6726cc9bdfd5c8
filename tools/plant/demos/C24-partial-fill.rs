#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let total = flight_recs(&cfg).len() as u64;
    for at in 0..total {
        let run = peer(cfg.clone(), flight_recs(&cfg), good_fin);
        run.world.borrow_mut().rp.end_at = Some((at, None));
        match run.connect() {
            Ok(_) => expect(false, "established on a truncated stream"),
            Err(e) => expect(kind(&e) == "IoFailure", "a truncated stream is not reported as an I/O failure"),
        }
    }
}
