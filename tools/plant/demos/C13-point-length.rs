#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for n in 0..140usize {
        let mut cfg = default_cfg();
        let mut p = cfg.public.to_vec();
        p.resize(n, 4);
        let ske = cfg.ske_with(3, 23, &p);
        let mut m = cfg.server_hello();
        m.extend(cfg.certificate());
        m.extend(ske);
        m.extend(cfg.shd());
        cfg = default_cfg();
        let run = peer(cfg, rec(HS, &m), |_| None);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run.connect().is_ok()));
        expect(matches!(r, Ok(false)), "the client panicked");
    }
}
