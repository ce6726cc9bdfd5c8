#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for hi in 0..=255u8 {
        if hi == SUITE[0] {
            continue;
        }
        let cfg = default_cfg();
        let mut h = cfg.server_hello();
        let at = 4 + 2 + 32 + 1 + cfg.session_id.len();
        h[at] = hi;
        let mut f = h.clone();
        for m in [cfg.certificate(), cfg.ske(), cfg.shd()] {
            f.extend(m);
        }
        let run = peer(cfg, rec(HS, &f), good_fin);
        let _ = run.connect();
        run.sync();
        let sent_key = run.server.borrow().msgs.len() > 1;
        expect(!sent_key, "the client went on with a suite it had not offered");
    }
}
