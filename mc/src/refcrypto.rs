//! Reference cryptography, written for obviousness: the oracle side of every comparison.
//! SHA-256 is the RustCrypto `sha2` crate; everything else is arithmetic on big integers or a
//! literal transcription of RFC 8439 / RFC 5246 / SEC1.  `selftest` pins it to published vectors.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use sha2::{Digest, Sha256};

pub fn sha256(m: &[u8]) -> [u8; 32] {
    Sha256::digest(m).into()
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner = k.iter().map(|b| b ^ 0x36).collect::<Vec<u8>>();
    inner.extend_from_slice(msg);
    let ih = sha256(&inner);
    let mut outer = k.iter().map(|b| b ^ 0x5c).collect::<Vec<u8>>();
    outer.extend_from_slice(&ih);
    sha256(&outer)
}

/// P_SHA256(secret, seed), first n bytes (RFC 5246 section 5; `seed` already includes the label).
pub fn p_sha256(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut a = seed.to_vec();
    while out.len() < n {
        a = hmac(secret, &a).to_vec();
        let mut x = a.clone();
        x.extend_from_slice(seed);
        out.extend_from_slice(&hmac(secret, &x));
    }
    out.truncate(n);
    out
}

pub fn prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    let mut s = label.as_bytes().to_vec();
    s.extend_from_slice(seed);
    p_sha256(secret, &s, n)
}

pub fn chacha20_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut init = [0u32; 16];
    init[0] = w(b"expa");
    init[1] = w(b"nd 3");
    init[2] = w(b"2-by");
    init[3] = w(b"te k");
    for i in 0..8 {
        init[4 + i] = w(&key[4 * i..]);
    }
    init[12] = counter;
    for i in 0..3 {
        init[13 + i] = w(&nonce[4 * i..]);
    }
    fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(16);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(12);
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(8);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(7);
    }
    let mut s = init;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

pub fn chacha20_xor(key: &[u8; 32], counter: u32, nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, ch) in data.chunks(64).enumerate() {
        let ks = chacha20_block(key, counter.wrapping_add(i as u32), nonce);
        out.extend(ch.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    out
}

/// Poly1305 with an arithmetic-on-130-bits accumulator held in four u64 limbs and a slow but plain
/// "multiply, then subtract shifted p" reduction would be obvious but slow; here acc < 2^131 is held
/// as u128 halves of 65.. bits: we use BigUint for the corner lattice and this u64x3 version for bulk.
/// Both are compared with each other in `selftest`.
pub fn poly1305_big(msg: &[u8], r: &[u8; 16], s: &[u8; 16]) -> [u8; 16] {
    let p = (BigUint::one() << 130u32) - BigUint::from(5u32);
    let mut rc = *r;
    for i in [3, 7, 11, 15] {
        rc[i] &= 15;
    }
    for i in [4, 8, 12] {
        rc[i] &= 252;
    }
    let rn = BigUint::from_bytes_le(&rc);
    let mut acc = BigUint::zero();
    for b in msg.chunks(16) {
        let mut v = b.to_vec();
        v.push(1);
        acc = ((acc + BigUint::from_bytes_le(&v)) * &rn) % &p;
    }
    acc += BigUint::from_bytes_le(s);
    let mut o = acc.to_bytes_le();
    o.resize(17, 0);
    let mut out = [0u8; 16];
    out.copy_from_slice(&o[..16]);
    out
}

/// Schoolbook radix-2^64 Poly1305 (bulk oracle).
pub fn poly1305(msg: &[u8], r: &[u8; 16], s: &[u8; 16]) -> [u8; 16] {
    let le = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
    let r0 = le(&r[..8]) & 0x0ffffffc0fffffff;
    let r1 = le(&r[8..]) & 0x0ffffffc0ffffffc;
    // h = h0 + h1 2^64 + h2 2^128, kept below 2^131
    let (mut h0, mut h1, mut h2) = (0u64, 0u64, 0u64);
    for b in msg.chunks(16) {
        let mut v = [0u8; 24];
        v[..b.len()].copy_from_slice(b);
        v[b.len()] = 1;
        let t = h0 as u128 + le(&v[0..]) as u128;
        h0 = t as u64;
        let t = h1 as u128 + le(&v[8..]) as u128 + (t >> 64);
        h1 = t as u64;
        h2 = h2 + le(&v[16..]) + (t >> 64) as u64;
        // multiply
        let m0 = h0 as u128 * r0 as u128;
        let m1a = h0 as u128 * r1 as u128;
        let m1b = h1 as u128 * r0 as u128;
        let m2a = h1 as u128 * r1 as u128;
        let m2b = h2 as u128 * r0 as u128;
        let m3 = h2 as u128 * r1 as u128;
        let mut w = [0u64; 5];
        let mut c: u128 = m0;
        w[0] = c as u64;
        c >>= 64;
        c += (m1a as u64) as u128 + (m1b as u64) as u128;
        w[1] = c as u64;
        c >>= 64;
        c += (m1a >> 64) + (m1b >> 64) + (m2a as u64) as u128 + (m2b as u64) as u128;
        w[2] = c as u64;
        c >>= 64;
        c += (m2a >> 64) + (m2b >> 64) + (m3 as u64) as u128;
        w[3] = c as u64;
        c >>= 64;
        c += m3 >> 64;
        w[4] = c as u64;
        // reduce: low 130 bits + 5 * (w >> 130)
        let hi0 = (w[2] >> 2) | (w[3] << 62);
        let hi1 = (w[3] >> 2) | (w[4] << 62);
        let hi2 = w[4] >> 2;
        let t = w[0] as u128 + 5 * hi0 as u128;
        h0 = t as u64;
        let t = w[1] as u128 + 5 * hi1 as u128 + (t >> 64);
        h1 = t as u64;
        h2 = (w[2] & 3) + 5 * hi2 + (t >> 64) as u64;
    }
    // full reduction: subtract p while h >= p
    loop {
        // h + 5 >= 2^130 ?
        let t = h0 as u128 + 5;
        let g0 = t as u64;
        let t = h1 as u128 + (t >> 64);
        let g1 = t as u64;
        let g2 = h2 + (t >> 64) as u64;
        if g2 >= 4 {
            h0 = g0;
            h1 = g1;
            h2 = g2 - 4;
        } else {
            break;
        }
    }
    let t = h0 as u128 + le(&s[..8]) as u128;
    let o0 = t as u64;
    let t = h1 as u128 + le(&s[8..]) as u128 + (t >> 64);
    let o1 = t as u64;
    let mut out = [0u8; 16];
    out[..8].copy_from_slice(&o0.to_le_bytes());
    out[8..].copy_from_slice(&o1.to_le_bytes());
    out
}

fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], ct: &[u8], ad: &[u8]) -> [u8; 16] {
    let otk = chacha20_block(key, 0, nonce);
    let mut m = ad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&m, otk[..16].try_into().unwrap(), otk[16..32].try_into().unwrap())
}

pub fn aead_seal(key: &[u8; 32], nonce: &[u8; 12], pt: &[u8], ad: &[u8]) -> Vec<u8> {
    let mut ct = chacha20_xor(key, 1, nonce, pt);
    let tag = aead_tag(key, nonce, &ct, ad);
    ct.extend_from_slice(&tag);
    ct
}

pub fn aead_open(key: &[u8; 32], nonce: &[u8; 12], data: &[u8], ad: &[u8]) -> Option<Vec<u8>> {
    if data.len() < 16 {
        return None;
    }
    let (ct, tag) = data.split_at(data.len() - 16);
    if aead_tag(key, nonce, ct, ad)[..] != tag[..] {
        return None;
    }
    Some(chacha20_xor(key, 1, nonce, ct))
}

// ---------------------------------------------------------------- P-256 (affine, big integers)

pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub b: BigUint,
    pub g: (BigUint, BigUint),
}

pub type Pt = Option<(BigUint, BigUint)>; // None = point at infinity

pub fn hexn(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

pub fn curve() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| Curve {
        p: hexn("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: hexn("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        b: hexn("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        g: (
            hexn("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            hexn("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ),
    })
}

impl Curve {
    pub fn g(&self) -> Pt {
        Some(self.g.clone())
    }
    pub fn subm(&self, a: &BigUint, b: &BigUint) -> BigUint {
        ((a % &self.p) + &self.p - (b % &self.p)) % &self.p
    }
    pub fn inv(&self, a: &BigUint) -> BigUint {
        a.modinv(&self.p).expect("inverse of zero")
    }
    pub fn on_curve(&self, x: &BigUint, y: &BigUint) -> bool {
        let l = (y * y) % &self.p;
        let x3 = (x * x * x) % &self.p;
        let r = self.subm(&(x3 + &self.b), &(x * BigUint::from(3u32)));
        l == r
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let (ax, ay) = match a {
            None => return b.clone(),
            Some(v) => v,
        };
        let (bx, by) = match b {
            None => return a.clone(),
            Some(v) => v,
        };
        let l = if ax == bx {
            if ((ay + by) % &self.p).is_zero() {
                return None;
            }
            let num = self.subm(&(BigUint::from(3u32) * ax * ax), &BigUint::from(3u32));
            num * self.inv(&((ay << 1u32) % &self.p)) % &self.p
        } else {
            self.subm(by, ay) * self.inv(&self.subm(bx, ax)) % &self.p
        };
        let x = self.subm(&self.subm(&(&l * &l), ax), bx);
        let y = self.subm(&(&l * self.subm(ax, &x)), ay);
        Some((x, y))
    }
    pub fn mul(&self, k: &BigUint, a: &Pt) -> Pt {
        let mut r: Pt = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    /// A y with (x, y) on the curve, if there is one.
    pub fn lift_x(&self, x: &BigUint) -> Option<BigUint> {
        let x3 = (x * x * x) % &self.p;
        let r = self.subm(&(x3 + &self.b), &(x * BigUint::from(3u32)));
        let e = (&self.p + BigUint::one()) >> 2u32;
        let y = r.modpow(&e, &self.p);
        if (&y * &y) % &self.p == r {
            Some(y)
        } else {
            None
        }
    }
}

pub fn be32(v: &BigUint) -> [u8; 32] {
    let b = v.to_bytes_be();
    assert!(b.len() <= 32);
    let mut o = [0u8; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}

pub fn encode_pt(p: &Pt) -> Vec<u8> {
    let (x, y) = p.as_ref().expect("infinity has no encoding");
    let mut v = vec![4u8];
    v.extend_from_slice(&be32(x));
    v.extend_from_slice(&be32(y));
    v
}

/// Strict SEC1 decoding of an uncompressed point: canonical coordinates, on the curve.
pub fn decode_pt(b: &[u8]) -> Option<(BigUint, BigUint)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let c = curve();
    let x = BigUint::from_bytes_be(&b[1..33]);
    let y = BigUint::from_bytes_be(&b[33..]);
    if x >= c.p || y >= c.p || !c.on_curve(&x, &y) {
        return None;
    }
    Some((x, y))
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Published vectors: an oracle that drifts is an error of the check, not a verdict.
pub fn selftest() -> Result<(), String> {
    let ck = |n: &str, a: &[u8], b: &str| {
        if a == &unhex(b)[..] {
            Ok(())
        } else {
            Err(format!("reference self-test failed: {} got {}", n, hex(a)))
        }
    };
    ck("sha256", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    // RFC 4231 case 2 and case 6 (key longer than a block)
    ck("hmac2", &hmac(b"Jefe", b"what do ya want for nothing?"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")?;
    ck("hmac6", &hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")?;
    // RFC 8439 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let ad = unhex("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = aead_seal(&key, &nonce, pt, &ad);
    ck("aead tag", &ct[ct.len() - 16..], "1ae10b594f09e26a7e902ecbd0600691")?;
    ck("aead ct", &ct[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    if aead_open(&key, &nonce, &ct, &ad).as_deref() != Some(&pt[..]) {
        return Err("reference self-test failed: aead open".into());
    }
    // the two Poly1305 versions agree on a corner grid
    for a in 0..4u8 {
        for l in 0..50usize {
            let m = vec![[0u8, 1, 0xfb, 0xff][a as usize]; l];
            for rb in [0u8, 1, 2, 0x7f, 0xff] {
                let r = [rb; 16];
                let s = [0xffu8; 16];
                if poly1305(&m, &r, &s) != poly1305_big(&m, &r, &s) {
                    return Err("reference self-test failed: poly1305".into());
                }
            }
        }
    }
    let c = curve();
    if !c.on_curve(&c.g.0, &c.g.1) || c.mul(&c.n, &c.g()).is_some() {
        return Err("reference self-test failed: curve".into());
    }
    let five = c.mul(&BigUint::from(5u32), &c.g());
    ck("5G", &encode_pt(&five)[1..33], "51590b7a515140d2d784c85608668fdfef8c82fd1f5be52421554a0dc3d033ed")?;
    Ok(())
}
