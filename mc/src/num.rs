//! Conversions between the code's 256-bit integers and big integers, and the corner lattices.
use husk::crypto::p256::int256::Int256;
use husk::crypto::wrapping::Wrapping as W;
use num_bigint::BigUint;

pub fn to_int(b: &BigUint) -> Int256 {
    let d = b.to_u32_digits();
    assert!(d.len() <= 8, "HARNESS: more than 256 bits");
    let mut v = [W(0u32); 8];
    for (i, x) in d.iter().enumerate() {
        v[i] = W(*x);
    }
    Int256 { v }
}

pub fn limbs(l: &[u32; 8]) -> Int256 {
    let mut v = [W(0u32); 8];
    for i in 0..8 {
        v[i] = W(l[i]);
    }
    Int256 { v }
}

pub fn big(l: &[u32; 8]) -> BigUint {
    BigUint::from_slice(l)
}

pub fn to_big(a: &Int256) -> BigUint {
    let l: Vec<u32> = a.v.iter().map(|w| w.0).collect();
    BigUint::from_slice(&l)
}

/// All 8-limb values with every limb from `syms`.
pub fn lattice(syms: &[u32]) -> impl Iterator<Item = [u32; 8]> + '_ {
    let k = syms.len() as u64;
    (0..k.pow(8)).map(move |mut i| {
        let mut l = [0u32; 8];
        for x in l.iter_mut() {
            *x = syms[(i % k) as usize];
            i /= k;
        }
        l
    })
}

pub fn lattice_at(syms: &[u32], mut i: u64) -> [u32; 8] {
    let k = syms.len() as u64;
    let mut l = [0u32; 8];
    for x in l.iter_mut() {
        *x = syms[(i % k) as usize];
        i /= k;
    }
    l
}
