#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for v in [curve().n.clone(), &curve().n + 0u32] {
        for le in [true, false] {
            for n in 1..40 {
                let mut x = be32(&v).to_vec();
                if le {
                    x.reverse();
                }
                let mut script = pattern(9, 32);
                for _ in 0..n {
                    script.extend(&x);
                }
                let run = conforming(default_cfg(), vec![], eof);
                let _ = run.connect_scripted(script, 1);
                run.sync();
                let s = run.server.borrow();
                if let Some(p) = &s.client_point {
                    expect(decode_pt(p).is_some(), "the key share is not a valid point");
                }
            }
        }
    }
}
