#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::util::WriteExt;
struct Slow(Vec<u8>, usize);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    for n in 1..9 {
        let mut s = Slow(vec![], n);
        s.write_be_u64(0x0102_0304_0506_0708).unwrap();
        expect(s.0 == [1, 2, 3, 4, 5, 6, 7, 8], "bytes lost between two calls");
    }
}
