#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut cfg = default_cfg();
    cfg.certs = (0..12).map(|i| pattern(i, 40)).collect();
    let run = conforming(cfg, vec![], eof);
    expect(run.connect().is_ok(), "a server with a long chain is refused");
    run.sync();
    expect(run.problems().is_ok(), "the client's Finished is wrong");
}
