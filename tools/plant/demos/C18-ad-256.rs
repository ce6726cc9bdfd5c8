#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};

fn main() {
    let key = [7u8; 32];
    let nonce = [3u8; 12];
    for n in 0..600usize {
        let ad = pattern(1, n);
        let got = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce, b"hello", &ad);
        expect(got == aead_seal(&key, &nonce, b"hello", &ad), "wrong ciphertext or tag");
    }
}
