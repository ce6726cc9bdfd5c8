#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let run = peer(default_cfg(), rec(HS, &pattern(3, (1 << 14) + 1)), |_| None);
    expect(run.connect().is_err(), "accepted");
    let a = alerts(&run);
    expect(a == vec![vec![2u8, 22]], "the alert is not record_overflow");
}
