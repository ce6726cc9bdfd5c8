//! C18: the AEAD is exactly RFC 8439 and refuses everything else.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::poly1305::authenticate;
use husk::tls_result::TlsErrorKind;
use mc::drive::pattern;
use mc::refcrypto::*;
use mc::report::Ctx;
use num_bigint::BigUint;

fn key_of(n: usize) -> [u8; 32] {
    let mut k = [0u8; 32];
    match n {
        0 => {}
        1 => k = [0xff; 32],
        2..=257 => k[(n - 2) / 8] = 0x80 >> ((n - 2) % 8),
        _ => k.copy_from_slice(&pattern(n as u8, 32)),
    }
    k
}

fn nonce_of(n: usize) -> [u8; 12] {
    let mut k = [0u8; 12];
    match n {
        0 => {}
        1 => k = [0xff; 12],
        2..=97 => k[(n - 2) / 8] = 0x80 >> ((n - 2) % 8),
        _ => k.copy_from_slice(&pattern(n as u8 ^ 0x31, 12)),
    }
    k
}

fn seal(key: &[u8], nonce: &[u8], pt: &[u8], ad: &[u8]) -> Vec<u8> {
    ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(nonce, pt, ad)
}

fn open(key: &[u8], nonce: &[u8], ct: &[u8], ad: &[u8]) -> Result<Vec<u8>, TlsErrorKind> {
    ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(nonce, ct, ad).map_err(|e| e.kind)
}

fn both(key: &[u8; 32], nonce: &[u8; 12], pt: &[u8], ad: &[u8]) -> Result<Vec<u8>, String> {
    let ct = seal(key, nonce, pt, ad);
    let want = aead_seal(key, nonce, pt, ad);
    let id = || format!("key {}, nonce {}, {} bytes, ad {} bytes", hex(key), hex(nonce), pt.len(), ad.len());
    if ct != want {
        let at = ct.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!("{}: sealed bytes differ from RFC 8439 (length {} / {}, first difference {:?})", id(), ct.len(), want.len(), at));
    }
    match open(key, nonce, &ct, ad) {
        Ok(p) if p == pt => Ok(ct),
        Ok(_) => Err(format!("{}: opens to something else", id())),
        Err(k) => Err(format!("{}: own output refused: {:?}", id(), k)),
    }
}

fn refuse(what: &str, key: &[u8], nonce: &[u8], ct: &[u8], ad: &[u8]) -> Result<(), String> {
    match open(key, nonce, ct, ad) {
        Err(TlsErrorKind::BadRecordMac) => Ok(()),
        Err(k) => Err(format!("{}: refused, but as {:?}", what, k)),
        Ok(_) => Err(format!("{}: accepted", what)),
    }
}

fn main() {
    let c = Ctx::new("C18", "exploration");
    let th = c.thorough();
    c.rule(
        "Seal/open: every plaintext length and AD length of the range, every single-bit key and nonce; forgeries: every bit of nonce, AD, ciphertext and tag, \
         every truncation, extensions, every pair of tag bytes changed by the same value (all 255), tag permutations; authenticator: corner lattices over r, s and \
         blocks, and messages constructed so that the accumulator ends at every value within 16 of 0, p, 2^128 and 2^130; key stream: block after block past 2^16. \
         Reference: literal RFC 8439 with the authenticator on big integers. Non-trivial: a forgery, or an authenticator input built for a carry corner.",
    );
    // lengths
    let max = if th { (1 << 14) + 300 } else { (1 << 14) + 64 };
    c.bound(format!("plaintext lengths 0..={}; AD lengths 0..=80 x plaintext lengths 0..=130", max));
    let (k0, n0) = (key_of(300), nonce_of(200));
    let ad13 = pattern(8, 13);
    c.par(max / 64 + 1, |ci| {
        c.case(&format!("len/{}", ci * 64), || {
            for n in ci * 64..(ci * 64 + 64).min(max + 1) {
                both(&k0, &n0, &pattern(n as u8, n), &ad13)?;
            }
            c.add_traces(63);
            Ok("seal and open agree".into())
        });
    });
    c.par(81, |al| {
        c.case(&format!("ad/{}", al), || {
            let ad = pattern(al as u8, al);
            for n in 0..=130 {
                both(&k0, &n0, &pattern(n as u8, n), &ad)?;
            }
            c.add_traces(130);
            Ok("seal and open agree".into())
        });
    });
    // long additional data and plaintexts: lengths that need 9, 16, 17 and 24 bits, counters past 2^16
    let mut ads: Vec<usize> = (81..=if th { 1100 } else { 530 }).collect();
    ads.extend([1023, 1024, 1025, 4096, 16384, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1]);
    let mut big: Vec<usize> = vec![20_000, 32_768, 50_000, 65_535, 65_536, 65_537, 131_072, (1 << 18) + 7, (1 << 20) + 1, (1 << 22) - 128, (1 << 22) - 64, 1 << 22, (1 << 22) + 200];
    if th {
        big.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 100]);
    } else {
        big.push((1 << 24) + 1);
    }
    c.bound(format!("AD lengths {}..={} and {:?} with 5 plaintext lengths; plaintext lengths {:?}", ads[0], if th { 1100 } else { 530 }, &ads[ads.len() - 10..], big));
    c.par(ads.len(), |i| {
        c.case(&format!("long-ad/{}", ads[i]), || {
            let ad = pattern(ads[i] as u8, ads[i]);
            for n in [0usize, 1, 16, 63, 100] {
                let ct = both(&k0, &n0, &pattern(n as u8, n), &ad)?;
                refuse("AD without its last byte", &k0, &n0, &ct, &ad[..ad.len() - 1])?;
            }
            c.add_traces(9);
            Ok("seal and open agree".into())
        });
    });
    c.par(big.len(), |i| {
        c.case(&format!("long/{}", big[i]), || {
            let ct = both(&k0, &n0, &pattern(i as u8, big[i]), &ad13)?;
            for at in [0, big[i] / 2, big[i] - 1, big[i], big[i] + 15] {
                let mut x = ct.clone();
                x[at] ^= 0x10;
                refuse(&format!("byte {} of {} changed", at, ct.len()), &k0, &n0, &x, &ad13)?;
            }
            c.add_traces(6);
            Ok("seal and open agree".into())
        });
    });
    c.bound("all 258 corner keys x 3 nonces, all 98 corner nonces x 3 keys, 0/1/64/65/200 bytes; plaintexts of all 256 byte values");
    c.par(260, |i| {
        c.case(&format!("keys/{}", i), || {
            for n in [0usize, 1, 64, 65, 200] {
                for m in [0, 1, 150] {
                    both(&key_of(i), &nonce_of(m), &pattern(5, n), &ad13)?;
                    if i < 99 {
                        both(&key_of([0, 1, 299][m % 3]), &nonce_of(i), &pattern(6, n), &ad13)?;
                    }
                }
                both(&k0, &n0, &vec![i as u8; n], &vec![i as u8; n % 21])?;
            }
            c.add_traces(29);
            Ok("seal and open agree".into())
        });
    });
    // forgeries
    let lens: Vec<usize> = if th { (0..=130).collect() } else { vec![0, 1, 2, 12, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 80, 127, 128, 129] };
    let lens = &lens;
    c.bound(format!("forgeries on {} plaintext lengths", lens.len()));
    c.par(lens.len(), |i| {
        let n = lens[i];
        c.case(&format!("forge/{}", n), || {
            let ad = pattern(3, 13);
            let pt = pattern(4, n);
            let ct = both(&k0, &n0, &pt, &ad)?;
            let mut cnt = 0u64;
            for b in 0..ct.len() * 8 {
                let mut x = ct.clone();
                x[b / 8] ^= 1 << (b % 8);
                refuse(&format!("{} bytes, bit {} of the ciphertext changed", n, b), &k0, &n0, &x, &ad)?;
                cnt += 1;
            }
            for b in 0..96 {
                let mut x = n0;
                x[b / 8] ^= 1 << (b % 8);
                refuse(&format!("{} bytes, bit {} of the nonce changed", n, b), &k0, &x, &ct, &ad)?;
                cnt += 1;
            }
            for b in 0..256 {
                let mut x = k0;
                x[b / 8] ^= 1 << (b % 8);
                refuse(&format!("{} bytes, bit {} of the key changed", n, b), &x, &n0, &ct, &ad)?;
                cnt += 1;
            }
            for b in 0..13 * 8 {
                let mut x = ad.clone();
                x[b / 8] ^= 1 << (b % 8);
                refuse(&format!("{} bytes, bit {} of the additional data changed", n, b), &k0, &n0, &ct, &x)?;
                cnt += 1;
            }
            for l in 0..ct.len() {
                refuse(&format!("{} bytes, truncated to {}", n, l), &k0, &n0, &ct[..l], &ad)?;
                refuse(&format!("{} bytes, first {} cut off", n, l + 1), &k0, &n0, &ct[l + 1..], &ad)?;
                cnt += 2;
            }
            for l in 1..=34 {
                for f in [0u8, 0xff] {
                    let mut x = ct.clone();
                    x.extend(vec![f; l]);
                    refuse(&format!("{} bytes, extended by {}", n, l), &k0, &n0, &x, &ad)?;
                    // padding bytes moved between ciphertext and tag
                    let mut x = ct[..n].to_vec();
                    x.extend(vec![f; l]);
                    x.extend_from_slice(&ct[n..]);
                    refuse(&format!("{} bytes, {} bytes inserted before the tag", n, l), &k0, &n0, &x, &ad)?;
                    let mut x = ad.clone();
                    x.extend(vec![f; l]);
                    refuse(&format!("{} bytes, additional data extended by {}", n, l), &k0, &n0, &ct, &x)?;
                    cnt += 3;
                }
            }
            for l in 0..ad.len() {
                refuse(&format!("{} bytes, additional data truncated to {}", n, l), &k0, &n0, &ct, &ad[..l])?;
                cnt += 1;
            }
            c.add_traces(cnt - 1);
            c.add_nontrivial(cnt);
            Ok("forgeries refused".into())
        });
    });
    // tag comparisons: pairs of bytes changed so that a sloppy accumulation cancels
    c.par(16, |a| {
        c.case(&format!("tagpairs/{}", a), || {
            let ad = pattern(3, 13);
            let mut cnt = 0;
            for n in [0usize, 16, 33] {
                let ct = both(&k0, &n0, &pattern(4, n), &ad)?;
                for d in 1..=255u8 {
                    for b in 0..16 {
                        let mut x = ct.clone();
                        x[n + a] ^= d;
                        if b != a {
                            x[n + b] ^= d;
                        }
                        refuse(&format!("tag bytes {} and {} changed by {}", a, b, d), &k0, &n0, &x, &ad)?;
                        let mut y = ct.clone();
                        y[n + a] = y[n + a].wrapping_add(d);
                        if b != a {
                            y[n + b] = y[n + b].wrapping_sub(d);
                        }
                        refuse(&format!("tag bytes {} and {} changed by +-{}", a, b, d), &k0, &n0, &y, &ad)?;
                        cnt += 2;
                    }
                    if a == 0 {
                        let mut x = ct.clone();
                        for t in x[n..].iter_mut() {
                            *t ^= d;
                        }
                        refuse(&format!("all tag bytes changed by {}", d), &k0, &n0, &x, &ad)?;
                        cnt += 1;
                    }
                }
                let t = ct[n..].to_vec();
                for r in 1..16 {
                    let mut x = ct[..n].to_vec();
                    let mut y = t.clone();
                    y.rotate_left(r);
                    if y == t {
                        continue;
                    }
                    x.extend(y);
                    refuse("tag rotated", &k0, &n0, &x, &ad)?;
                    cnt += 1;
                }
            }
            c.add_traces(cnt - 1);
            c.add_nontrivial(cnt);
            Ok("forged tags refused".into())
        });
    });
    // authenticator corners
    let blocks: Vec<[u8; 16]> = {
        let mut v = vec![[0u8; 16], [0xff; 16]];
        for i in 0..16 {
            let mut b = [0u8; 16];
            b[i] = 1;
            v.push(b);
            let mut b = [0xffu8; 16];
            b[i] = 0xfe;
            v.push(b);
        }
        for w in 0..4 {
            let mut b = [0u8; 16];
            b[4 * w..4 * w + 4].copy_from_slice(&[0xff; 4]);
            v.push(b);
            let mut b = [0xffu8; 16];
            b[4 * w..4 * w + 4].copy_from_slice(&[0; 4]);
            v.push(b);
        }
        for x in [0xfbu8, 0xfa, 0xfc, 0x05, 0x7f, 0x80] {
            let mut b = [0xffu8; 16];
            b[0] = x;
            v.push(b);
            v.push([x; 16]);
        }
        v
    };
    let rs: Vec<[u8; 16]> = {
        let mut v = blocks.clone();
        for e in [0, 1, 2, 26, 27, 28, 52, 59, 60, 78, 91, 96, 104, 123] {
            v.push(((1u128 << e)).to_le_bytes());
            v.push(((1u128 << e) - 1).to_le_bytes());
        }
        v
    };
    let (blocks, rs) = (&blocks, &rs);
    c.bound(format!("authenticator: {} values of r x {}^2 two-block messages x partial third blocks x 3 values of s", rs.len(), blocks.len()));
    c.par(rs.len(), |i| {
        c.case(&format!("poly/{}", i), || {
            let r = &rs[i];
            let mut n = 0u64;
            for a in blocks {
                for b in blocks {
                    for t in [0usize, 1, 8, 15, 16] {
                        let mut m = a.to_vec();
                        m.extend_from_slice(b);
                        m.extend_from_slice(&a[..t]);
                        for s in [[0u8; 16], [0xff; 16]] {
                            n += 1;
                            let (x, y) = (authenticate(&m, r, &s), poly1305(&m, r, &s));
                            if x != y {
                                return Err(format!("authenticator(r {}, s {}, m {}) = {} instead of {}", hex(r), hex(&s), hex(&m), hex(&x), hex(&y)));
                            }
                        }
                    }
                }
            }
            c.add_traces(n - 1);
            c.add_nontrivial(n);
            Ok("authenticator agrees".into())
        });
    });
    // accumulator driven to chosen final values
    let p = (BigUint::from(1u32) << 130u32) - 5u32;
    let one = BigUint::from(1u32);
    let two128 = &one << 128u32;
    let mut targets: Vec<BigUint> = Vec::new();
    for d in 0..17u32 {
        targets.push(BigUint::from(d));
        targets.push(&p - 1u32 - d);
        for e in [26u32, 32, 52, 64, 78, 96, 104, 128, 129] {
            targets.push((&one << e) + d);
            targets.push((&one << e) - d);
        }
    }
    // just above multiples of 2^26 and 2^32: the last carries run through the low limbs
    for x in 1..=(if th { 256u32 } else { 48 }) {
        for d in 0..5u32 {
            for e in [26u32, 32] {
                targets.push((BigUint::from(x) << e) + d);
                targets.push((BigUint::from(x) << e) - d);
            }
        }
    }
    let (p, targets) = (&p, &targets);
    c.par(rs.len(), |i| {
        c.case(&format!("polytarget/{}", i), || {
            let clamp: [u8; 16] = [255, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15];
            let mut rc = rs[i];
            for j in 0..16 {
                rc[j] &= clamp[j];
            }
            let r = BigUint::from_bytes_le(&rc);
            if r.bits() == 0 {
                return Ok("r is zero".into());
            }
            let inv = r.modinv(p).unwrap();
            let mut n = 0u64;
            let mut prefixes: Vec<Vec<u8>> = vec![vec![]];
            for b in blocks {
                prefixes.push(b.to_vec());
            }
            for b in blocks.iter().take(8) {
                for d in blocks.iter().take(8) {
                    let mut v = b.to_vec();
                    v.extend_from_slice(d);
                    v.extend_from_slice(d);
                    prefixes.push(v);
                }
            }
            for pre in &prefixes {
                let mut h = BigUint::from(0u32);
                for ch in pre.chunks(16) {
                    h = (h + &two128 + BigUint::from_bytes_le(ch)) * &r % p;
                }
                for t in targets {
                    let last = (t * &inv + p + p - &h - &two128 % p) % p;
                    if last >= two128 {
                        continue;
                    }
                    let mut m = pre.clone();
                    let mut lb = last.to_bytes_le();
                    lb.resize(16, 0);
                    m.extend_from_slice(&lb);
                    for s in [[0u8; 16], [0xff; 16]] {
                        n += 1;
                        let (x, y) = (authenticate(&m, &rs[i], &s), poly1305_big(&m, &rs[i], &s));
                        if x != y {
                            return Err(format!("authenticator(r {}, s {}, m {}) = {} instead of {}", hex(&rs[i]), hex(&s), hex(&m), hex(&x), hex(&y)));
                        }
                    }
                }
            }
            c.add_traces(n);
            c.add_nontrivial(n);
            Ok("authenticator agrees at the targets".into())
        });
    });
    // key stream, block by block
    let blocks_n = if th { 1usize << 20 } else { (1usize << 16) + 200 };
    c.bound(format!("key stream: {} consecutive blocks", blocks_n));
    c.par(8, |i| {
        c.case(&format!("stream/{}", i), || {
            let (k, n) = (key_of([0, 1, 2, 130, 257, 300, 301, 302][i]), nonce_of([0, 1, 2, 50, 97, 100, 101, 102][i]));
            let mut s = ChaCha20::new(&k, &n);
            let total = if i == 0 { blocks_n } else { 1000 };
            for b in 0..total {
                if s.next() != chacha20_block(&k, b as u32, &n) {
                    return Err(format!("key stream block {} is wrong", b));
                }
            }
            c.add_traces(total as u64);
            Ok("key stream agrees".into())
        });
    });
    c.finish()
}
