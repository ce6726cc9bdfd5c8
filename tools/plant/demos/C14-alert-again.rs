#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let cfg = default_cfg();
    let run = peer(cfg.clone(), flight_recs(&cfg), |s| {
        let mut m = s.finished()?;
        m[5] ^= 1;
        let mut f = rec(CCS, &[1]);
        f.extend(s.seal(HS, &m));
        Some(f)
    });
    // a first run tells where the alert starts; in the second its flush fails
    expect(run.connect().is_err(), "accepted");
    let total = run.world.borrow().out.len() as u64;
    let run = peer(cfg.clone(), flight_recs(&cfg), |s| {
        let mut m = s.finished()?;
        m[5] ^= 1;
        let mut f = rec(CCS, &[1]);
        f.extend(s.seal(HS, &m));
        Some(f)
    });
    run.world.borrow_mut().flush_fault_at = Some(total);
    expect(run.connect().is_err(), "accepted");
    expect(alerts(&run) == vec![vec![2u8, 51]], "the alert is not sent exactly once");
}
