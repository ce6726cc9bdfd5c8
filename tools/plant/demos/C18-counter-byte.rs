#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
fn main() {
    let key = [7u8; 32];
    let nonce = [9u8; 12];
    for n in [0usize, 1, 64, 16319, 16320, 16321, 16384] {
        let pt = pattern(1, n);
        let ct = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce, &pt, b"ad");
        expect(ct == aead_seal(&key, &nonce, &pt, b"ad"), "wrong ciphertext");
    }
}
