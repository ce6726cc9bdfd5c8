//! C19: SHA-256 and HMAC-SHA-256 at every length.
use husk::cipher::prf::hmac_sha256;
use husk::crypto::sha2::sha256 as code_sha;
use mc::refcrypto::*;
use mc::report::Ctx;

fn fill(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        _ => (0..n).map(|i| ((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as u8).collect(),
    }
}

fn one(m: &[u8]) -> Result<(), String> {
    let (a, b) = (code_sha(m), sha256(m));
    if a != b {
        return Err(format!("sha256 of {} bytes (first {:?}): {} instead of {}", m.len(), m.first(), hex(&a), hex(&b)));
    }
    Ok(())
}

fn main() {
    let c = Ctx::new("C19", "exploration");
    let th = c.thorough();
    c.rule(
        "Every message length in the range with four fillings, every position of a single one-bit message, long messages around powers of two; \
         every HMAC key length x message length. Reference: RustCrypto sha2 and HMAC built on it. \
         Non-trivial: the padding needs a block of its own, or the key is longer than one block.",
    );
    let max = if th { 40_000 } else { 20_000 };
    c.bound(format!("all lengths 0..={} (filling by length), lengths 0..=1500 x 4 fillings", max));
    c.par(max / 50 + 1, |ci| {
        c.case(&format!("len/{}", ci * 50), || {
            for n in ci * 50..(ci * 50 + 50).min(max + 1) {
                one(&fill(3 - (n / 64) % 4, n))?;
                if n <= 1500 {
                    for k in 0..4 {
                        one(&fill(k, n))?;
                    }
                }
                c.add_nontrivial((n % 64 > 55) as u64);
            }
            c.add_traces(49);
            Ok("hash agrees".into())
        });
    });
    c.par(130, |n| {
        c.case(&format!("onebit/{}", n), || {
            for bit in 0..n * 8 {
                let mut m = vec![0u8; n];
                m[bit / 8] = 0x80 >> (bit % 8);
                one(&m)?;
            }
            c.add_traces((n * 8) as u64);
            Ok("hash agrees".into())
        });
    });
    let mut big: Vec<usize> = Vec::new();
    for e in [16u32, 17, 18, 19, 20, 21, 22, 24] {
        for d in [-65i64, -64, -9, -8, -1, 0, 1, 55, 56, 63, 64] {
            big.push(((1i64 << e) + d) as usize);
        }
    }
    if th {
        // the 64-bit length field: above 2^29 bytes the bit length no longer fits 32 bits
        big.extend([(1 << 29) - 1, 1 << 29, (1 << 29) + 57]);
    } else {
        big.push((1 << 29) + 3);
    }
    c.bound(format!("long messages: {} lengths up to {}", big.len(), big.iter().max().unwrap()));
    big.sort();
    big.reverse();
    c.par(big.len(), |i| {
        c.case(&format!("big/{}", big[i]), || {
            let mut m = vec![0u8; big[i]];
            let l = m.len();
            m[l / 2] = 0x5a;
            m[l - 1] = 0xa5;
            one(&m)?;
            c.add_nontrivial(1);
            Ok("long hash agrees".into())
        });
    });
    let (mk, mm) = if th { (320, 300) } else { (200, 200) };
    c.bound(format!("HMAC: key lengths 0..={} x message lengths 0..={}", mk, mm));
    c.par(mk + 1, |k| {
        c.case(&format!("hmac/{}", k), || {
            for f in [1usize, 3] {
                let key = fill(f, k);
                for m in 0..=mm {
                    let msg = fill(3, m);
                    let (a, b) = (hmac_sha256(&key, &msg), hmac(&key, &msg));
                    if a != b {
                        return Err(format!("hmac, key {} bytes, message {} bytes: {} instead of {}", k, m, hex(&a), hex(&b)));
                    }
                }
            }
            c.add_traces(2 * mm as u64 + 1);
            c.add_nontrivial(if k > 64 { mm as u64 } else { 0 });
            Ok("hmac agrees".into())
        });
    });
    let mut ks: Vec<usize> = vec![];
    for e in [8u32, 9, 10, 12, 14, 16, 17, 20] {
        for d in [-1i64, 0, 1] {
            ks.push(((1i64 << e) + d) as usize);
        }
    }
    c.bound(format!("HMAC: {} long key and message lengths to 2^20 + 1", ks.len()));
    c.par(ks.len(), |i| {
        c.case(&format!("hmac-long/{}", ks[i]), || {
            let v = fill(3, ks[i]);
            for (k, m) in [(&v[..], &v[..13]), (&v[..48], &v[..]), (&v[..65], &v[..]), (&v[..], &v[..])] {
                let (a, b) = (hmac_sha256(k, m), hmac(k, m));
                if a != b {
                    return Err(format!("hmac, key {} bytes, message {} bytes: {} instead of {}", k.len(), m.len(), hex(&a), hex(&b)));
                }
            }
            c.add_traces(3);
            c.add_nontrivial(4);
            Ok("hmac agrees".into())
        });
    });
    c.finish()
}
