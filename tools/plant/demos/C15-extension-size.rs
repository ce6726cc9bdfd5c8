#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::handshake::Extension;
use husk::tls_item::TlsItem;
fn main() {
    // ec_point_formats declaring `n` bytes around a body of two
    for n in 0..6u8 {
        let b = [0, 11, 0, n, 1, 0];
        let ok = <Extension as TlsItem>::tls_read(&mut &b[..]).is_ok();
        expect(ok == (n == 2), "an ill-formed extension was accepted");
    }
}
