#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::cipher::prf::Prf;
fn main() {
    let want = p_sha256(b"secret", b"seed", 300);
    for a in 0..100 {
        for b in 0..100 {
            let mut p = Prf::new(b"secret".to_vec(), b"seed".to_vec());
            let mut got = p.get_bytes(a);
            got.extend(p.get_bytes(b));
            got.extend(p.get_bytes(40));
            expect(got[..] == want[..a + b + 40], "the stream depends on how it is drawn");
        }
    }
}
