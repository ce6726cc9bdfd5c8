#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::util::ReadExt;
fn main() {
    for x in [0u32, 1, 0x0102_0304, 0xffff_0000, u32::MAX] {
        let b = x.to_le_bytes();
        expect((&b[..]).read_le_u32().unwrap() == x, "wrong byte order");
    }
}
