#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::handshake::{Asn1Cert};
use husk::tls_item::TlsItem;
fn main() {
    for n in [1usize, 255, 256, 65535, 65536, 70_000, 0x01_02_03, 0x02_00_00] {
        let c = Asn1Cert::new(pattern(1, n)).ok().unwrap();
        let mut o = Vec::new();
        c.tls_write(&mut o).ok().unwrap();
        expect(o[..3] == [(n >> 16) as u8, (n >> 8) as u8, n as u8], "wrong 24-bit length");
        expect(o.len() == n + 3, "wrong size");
    }
}
