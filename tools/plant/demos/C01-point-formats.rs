#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut cfg = default_cfg();
    cfg.ext = Some(ext_block(&[(11, vec![3, 0, 1, 2])]));
    let run = conforming(cfg, vec![], eof);
    expect(run.connect().is_ok(), "a server listing three point formats is refused");
}
