#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for minor in 0..3u8 {
        let cfg = default_cfg();
        let mut h = cfg.server_hello();
        h[5] = minor;
        let mut f = h.clone();
        for m in [cfg.certificate(), cfg.ske(), cfg.shd()] {
            f.extend(m);
        }
        let run = world(cfg, {
            let mut st = 0;
            let f2 = f.clone();
            move |s| {
                st += 1;
                match st {
                    1 => {
                        s.flight_override = Some(f2.clone());
                        Feed::Bytes(rec(HS, &f2))
                    }
                    2 => good_fin(s).map_or(Feed::Eof, Feed::Bytes),
                    _ => Feed::Eof,
                }
            }
        });
        expect(run.connect().is_err(), "established under an unoffered protocol version");
    }
}
