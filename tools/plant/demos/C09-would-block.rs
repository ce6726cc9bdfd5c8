#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for k in [ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::BrokenPipe] {
        let mut e = establish(default_cfg(), eof).unwrap();
        let at = e.out_len();
        // 5 header bytes and 20 bytes of ciphertext get out, then one failure
        e.run.world.borrow_mut().wp.fault_at.push((at as u64 + 25, WFault::Err(k), false));
        e.run.sync();
        let (keys, seq) = {
            let s = e.run.server.borrow();
            (s.keys.clone().unwrap(), s.client_seq)
        };
        let (one, two) = (pattern(1, 64), pattern(2, 64));
        expect(e.c.write_all(&one).is_err(), "the failed write reported success");
        let _ = e.c.write_all(&two);
        let out = e.run.world.borrow().out[at..].to_vec();
        // whatever follows the torn record: no complete record in it may open under the torn record's number
        for i in 25..out.len().saturating_sub(21) {
            let n = u16::from_be_bytes([out[i + 3], out[i + 4]]) as usize;
            if out[i + 1..i + 3] == [3, 3] && i + 5 + n <= out.len() {
                if let Some(p) = open(&keys.cw, &keys.civ, seq, &out[i..i + 5 + n]) {
                    expect(p == one, "two records share a nonce");
                }
            }
        }
    }
}
