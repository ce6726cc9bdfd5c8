#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let run = peer(default_cfg(), rec(ALERT, &[2]), |_| None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run.connect().is_ok()));
    expect(r.is_ok(), "the client panicked");
}
