#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut e = establish(default_cfg(), eof).unwrap();
    let at = e.out_len() as u64;
    // 5 header bytes and 20 bytes of ciphertext get out, then one failure
    e.run.world.borrow_mut().wp.fault_at.push((at + 25, WFault::Err(ErrorKind::TimedOut), false));
    let one = pattern(1, 64);
    let two = pattern(2, 64);
    let r = e.c.write_all(&one);
    expect(r.is_err(), "the failed write reported success");
    let _ = e.c.write_all(&two);
    let out = e.run.world.borrow().out[at as usize..].to_vec();
    let (k, seq) = {
        let s = e.run.server.borrow();
        (s.keys.clone().unwrap(), s.client_seq)
    };
    e.run.sync();
    let seq = seq.max(1);
    if out.len() > 25 + 5 + 16 {
        // is what followed the torn record sealed under the torn record's number?
        for s in 1..=seq {
            if let Some(p) = open(&k.cw, &k.civ, s, &out[25..]) {
                let torn = seal(&k.cw, &k.civ, s, APP, &one);
                expect(torn[..25] != out[..25] || p == one, "two records share a nonce");
            }
        }
    }
}
