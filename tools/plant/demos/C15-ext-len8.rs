#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::handshake::Extension;
use husk::tls_item::TlsItem;
fn main() {
    for n in [0usize, 1, 255, 256, 257, 1000, 65535] {
        let mut b = vec![0x12, 0x34, (n >> 8) as u8, n as u8];
        b.extend(pattern(3, n));
        let x = match <Extension as TlsItem>::tls_read(&mut &b[..]) {
            Ok(x) => x,
            Err(_) => return expect(false, "an extension is refused"),
        };
        let mut out = Vec::new();
        expect(x.tls_write(&mut out).is_ok() && out == b, "an extension is not encoded as it was read");
    }
}
