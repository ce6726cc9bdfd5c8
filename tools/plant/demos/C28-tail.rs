#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::util::ReadExt;
struct Ends(usize, usize);
impl Read for Ends {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 {
            self.1 += 1;
            expect(self.1 < 1000, "a stream that has ended is read for ever");
        }
        Ok(n)
    }
}
fn main() {
    for len in 0..40 {
        for have in 0..=len {
            let r = ReadExt::read_exact(&mut Ends(have, 0), len);
            expect(r.is_ok() == (have == len), "a truncated block");
        }
    }
}
