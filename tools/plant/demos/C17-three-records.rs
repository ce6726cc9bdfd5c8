#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

fn main() {
    for len in [1, 16383, 16384, 16385, 32768, 49151, 49152, 49153, 65536, 100_000] {
        let mut e = establish(default_cfg(), eof).unwrap();
        let at = e.out_len();
        e.c.write_all(&pattern(1, len)).unwrap();
        let out = e.run.world.borrow().out[at..].to_vec();
        let (r, rest) = split_records(&out);
        expect(rest.is_empty(), "torn record");
        expect(r.iter().all(|r| r.len() <= 5 + (1 << 14) + 16), "a record is too long");
    }
}
