#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    let mut a = establish_seed(default_cfg(), eof, 1).unwrap();
    let mut b = establish_seed(default_cfg(), eof, 2).unwrap();
    let at = a.out_len() as u64;
    a.run.world.borrow_mut().wp.fault_at.push((at + 3, WFault::Err(ErrorKind::BrokenPipe), true));
    expect(a.c.write_all(b"secret of a").is_err(), "the failed write reported success");
    b.c.write_all(b"hello from b").unwrap();
    b.run.sync();
    expect(b.run.server.borrow().app_data() == b"hello from b", "another connection's bytes were sent");
}
