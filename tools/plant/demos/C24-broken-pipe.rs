#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for writes in 1..6u64 {
        for back in 0..20u64 {
            let mut e = establish(default_cfg(), stall).unwrap();
            for _ in 1..writes {
                expect(e.c.write_all(b"0123456789").is_ok(), "a write fails for no reason");
            }
            // the record of the next write takes 31 bytes
            let at = e.out_len() as u64 + 31 - 1 - back;
            e.run.world.borrow_mut().wp.fault_at = vec![(at, WFault::Err(ErrorKind::BrokenPipe), true)];
            expect(e.c.write_all(b"0123456789").is_err(), "a write that was cut short reports success");
        }
    }
}
