//! C05: which peer key shares are used.
use husk::crypto::p256::NPoint256;
use mc::drive::*;
use mc::net::Feed;
use mc::num::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use num_bigint::BigUint;

fn enc(first: u8, x: &BigUint, y: &BigUint) -> Vec<u8> {
    let mut v = vec![first];
    v.extend_from_slice(&be32(x));
    v.extend_from_slice(&be32(y));
    v
}

/// The decoder against the strict reference decoder.
fn unit(b: &[u8]) -> Result<bool, String> {
    let got = NPoint256::from_uncompressed_bytes(b);
    match (got, decode_pt(b)) {
        (None, None) => Ok(false),
        (Some(g), Some((x, y))) => {
            if g.x.v != to_int(&x).v || g.y.v != to_int(&y).v {
                return Err(format!("{} decodes to another point", hex(b)));
            }
            if g.to_uncompressed_bytes() != b {
                return Err(format!("{} does not encode back", hex(b)));
            }
            Ok(true)
        }
        (Some(_), None) => Err(format!("accepts an invalid point: {}", hex(b))),
        (None, Some(_)) => Err(format!("refuses a valid point: {}", hex(b))),
    }
}

fn main() {
    let c = Ctx::new("C05", "exploration");
    let e = curve();
    let th = c.thorough();
    let one = BigUint::from(1u32);
    c.rule(
        "Decoder: candidate encodings from the stated families, each compared with a strict reference decoder. \
         Connection: the same families sent as the server's key share in an otherwise conforming handshake; valid ones must complete, \
         others must end in an error with the matching alert, without a ClientKeyExchange. Non-trivial: the encoding is not a valid point.",
    );
    c.bound("first bytes 0..255; lengths 0..255; limb lattice {0,1,2^32-1}^8 (x) with both roots, their neighbours and every alias + p below 2^256; all single-bit changes of 8 valid points; points of y^2=x^3-3x+b' for 40 other b'; points missing the equation by each single bit, each limb, each byte lane and the same bit in each two limbs");

    // ---- candidate encodings
    let mut valid: Vec<Vec<u8>> = Vec::new();
    let mut p = None;
    for _ in 0..8 {
        p = e.add(&p, &e.g());
        valid.push(encode_pt(&p));
    }
    let mut cand: Vec<(String, Vec<u8>)> = Vec::new();
    let v0 = valid[0].clone();
    for f in 0..=255u8 {
        let mut b = v0.clone();
        b[0] = f;
        cand.push((format!("first/{:02x}", f), b));
    }
    for l in 0..=255usize {
        let mut b: Vec<u8> = v0.iter().cloned().cycle().take(l).collect();
        cand.push((format!("len/{}", l), b.clone()));
        if l > 0 && l != 65 {
            b[0] = 2 + (l & 1) as u8;
            cand.push((format!("clen/{}", l), b));
        }
    }
    for (i, v) in valid.iter().enumerate() {
        cand.push((format!("valid/{}", i), v.clone()));
        for bit in 0..65 * 8 {
            let mut b = v.clone();
            b[bit / 8] ^= 0x80 >> (bit % 8);
            cand.push((format!("bit/{}/{}", i, bit), b));
        }
        // swapped and negated coordinates, compressed and hybrid forms
        let (x, y) = decode_pt(v).unwrap();
        cand.push((format!("swap/{}", i), enc(4, &y, &x)));
        cand.push((format!("neg/{}", i), enc(4, &x, &(&e.p - &y))));
        cand.push((format!("negx/{}", i), enc(4, &(&e.p - &x), &y)));
        for f in [2u8, 3] {
            let mut b = vec![f];
            b.extend_from_slice(&be32(&x));
            cand.push((format!("comp/{}/{}", i, f), b));
        }
        for f in [6u8, 7] {
            cand.push((format!("hybrid/{}/{}", i, f), enc(f, &x, &y)));
        }
    }
    // zero, all-ones, p, p +- 1 in each coordinate
    let corner: Vec<BigUint> = vec![
        BigUint::from(0u32), one.clone(), &e.p - 1u32, e.p.clone(), &e.p + 1u32, e.n.clone(), (&one << 256u32) - 1u32, &one << 255u32, e.b.clone(), e.g.0.clone(), e.g.1.clone(),
    ];
    for (i, x) in corner.iter().enumerate() {
        for (j, y) in corner.iter().enumerate() {
            cand.push((format!("corner/{}/{}", i, j), enc(4, x, y)));
        }
    }
    // aliases x + p, y + p: congruent to a valid point, but not below the prime
    let gap = (&one << 256u32) - &e.p;
    let mut small = 0;
    let mut k = 0u32;
    while small < 24 {
        let x = BigUint::from(k);
        if let Some(y) = e.lift_x(&x) {
            small += 1;
            for y in [y.clone(), &e.p - &y] {
                cand.push((format!("smallx/{}/{}", k, y.bit(0)), enc(4, &x, &y)));
                cand.push((format!("alias-x/{}/{}", k, y.bit(0)), enc(4, &(&x + &e.p), &y)));
                if y < gap {
                    cand.push((format!("alias-xy/{}", k), enc(4, &(&x + &e.p), &(&y + &e.p))));
                }
            }
        }
        k += 1;
    }
    // small y: x is a root of x^3 - 3x + (b - y^2); find it by trying gcd(x^p - x) - done by search over
    // precomputed pairs instead: points whose y is below 2^224 so that y + p still fits
    for (x, y) in small_y() {
        cand.push((format!("smally/{:x}", y), enc(4, &x, &y)));
        cand.push((format!("alias-y/{:x}", y), enc(4, &x, &(&y + &e.p))));
    }
    // other curves y^2 = x^3 - 3x + b'
    for t in 1..=40u32 {
        let (x, y) = (BigUint::from(t), BigUint::from(7 * t + 1));
        cand.push((format!("othercurve/{}", t), enc(4, &x, &y)));
    }
    // points that miss the curve equation by exactly one bit pattern: every single bit, the same bit in two
    // limbs, whole byte lanes and whole limbs; once as y^2 + 3x against x^3 + b, once as y^2 against the cubic
    let mut masks: Vec<BigUint> = (0..256u32).map(|b| &one << b).collect();
    for i in 0..8u32 {
        for j in 0..i {
            for b in [0u32, 7, 8, 15, 16, 24, 31] {
                masks.push((&one << (32 * i + b)) | (&one << (32 * j + b)));
            }
        }
        masks.push(BigUint::from(0xffff_ffffu32) << (32 * i));
    }
    for lane in 0..4u32 {
        let mut m = BigUint::from(0u32);
        for i in 0..8u32 {
            m |= BigUint::from(0xffu32) << (32 * i + 8 * lane);
        }
        masks.push(m);
    }
    let three = BigUint::from(3u32);
    let per = if th { 8 } else { 2 };
    let mut misses = 0u64;
    for (mi, m) in masks.iter().enumerate() {
        for fam in 0..2 {
            let mut found = 0;
            let mut t = 0u32;
            while found < per && t < 400 {
                t += 1;
                let x = BigUint::from(0x9e37_79b9u32) * BigUint::from(t + 1000 * mi as u32).pow(7) % &e.p;
                let x3b = (&x * &x * &x + &e.b) % &e.p;
                let y2 = if fam == 0 {
                    let l = &x3b ^ m;
                    if l >= e.p {
                        continue;
                    }
                    e.subm(&l, &(&x * &three))
                } else {
                    let l = e.subm(&x3b, &(&x * &three)) ^ m;
                    if l >= e.p {
                        continue;
                    }
                    l
                };
                let y = y2.modpow(&((&e.p + &one) >> 2u32), &e.p);
                if (&y * &y) % &e.p != y2 {
                    continue;
                }
                found += 1;
                misses += 1;
                cand.push((format!("miss/{}/{}/{}", fam, mi, t), enc(4, &x, &y)));
            }
        }
    }
    if misses < masks.len() as u64 {
        panic!("HARNESS: too few near misses");
    }
    // limb lattice
    let mut lat = Vec::new();
    for l in lattice(&[0, 1, 0xffff_ffff]) {
        let x = big(&l);
        lat.push(x);
    }

    let cand = &cand;
    c.par((cand.len() + 15) / 16, |ci| {
        for (k, b) in &cand[ci * 16..((ci + 1) * 16).min(cand.len())] {
            c.case(&format!("unit/{}", k), || {
                let ok = unit(b)?;
                c.add_nontrivial(!ok as u64);
                Ok(if ok { "valid accepted".into() } else { "invalid refused".into() })
            });
        }
    });
    let lat = &lat;
    c.par((lat.len() + 63) / 64, |ci| {
        c.case(&format!("lattice/{}", ci), || {
            let mut n = 0;
            for x in &lat[ci * 64..((ci + 1) * 64).min(lat.len())] {
                let xr = x % &e.p;
                let root = e.lift_x(&xr);
                let mut ys = vec![BigUint::from(0u32), x.clone()];
                if let Some(y) = root {
                    ys.push(&e.p - &y);
                    ys.push((&y + 1u32) % &e.p);
                    ys.push(y);
                }
                for y in ys {
                    n += 1;
                    if !unit(&enc(4, x, &y))? {
                        c.add_nontrivial(1);
                    }
                }
            }
            c.add_traces(n - 1);
            Ok("lattice agrees".into())
        });
    });

    // ---- through the connection
    let step = if th { 1 } else { 5 };
    let conn: Vec<&(String, Vec<u8>)> = cand
        .iter()
        .enumerate()
        .filter(|(i, x)| !(x.0.starts_with("bit/") || x.0.starts_with("miss/")) || i % step == 0)
        .map(|x| x.1)
        .filter(|x| th || !x.0.starts_with("bit/") || x.0.starts_with("bit/0/") || x.0.starts_with("bit/1/"))
        .collect();
    let conn = &conn;
    let mut jobs: Vec<(String, Cfg, &Vec<u8>)> = conn.iter().map(|x| (x.0.clone(), default_cfg(), &x.1)).collect();
    let all = shapes();
    let few = |k: &str| ["first/", "corner/", "swap/0", "neg/0", "negx/0", "comp/0", "hybrid/0", "valid/", "alias-x/0", "alias-y/1"].iter().any(|p| k.starts_with(p)) || ["len/0", "len/1", "len/33", "len/64", "len/65", "len/66", "len/97", "len/255", "othercurve/1"].contains(&k);
    for (n, g) in &all {
        for x in conn.iter().filter(|x| few(&x.0)) {
            jobs.push((format!("{}/{}", n, x.0), g.clone(), &x.1));
        }
    }
    c.bound(format!("{} key shares through a connection, those of the simple families with {} further shapes of servers", jobs.len(), all.len()));
    c.par(jobs.len(), |i| {
        let (k, g, b) = &jobs[i];
        c.case(&format!("conn/{}", k), || {
            let b = *b;
            let b2 = b.clone();
            let valid = decode_pt(b);
            let mut cfg = g.clone();
            // a server can only know the scalar of multiples of G; for others it cannot finish anyway
            let mut d = None;
            if let Some(pt) = &valid {
                let mut q = None;
                for j in 1..=8u32 {
                    q = e.add(&q, &e.g());
                    if q.as_ref() == Some(pt) {
                        d = Some(BigUint::from(j));
                    } else if e.neg(&q).as_ref() == Some(pt) {
                        d = Some(&e.n - j);
                    }
                }
            }
            if let Some(d) = &d {
                cfg.d = d.clone();
            }
            cfg.public = b.clone();
            let known = d.is_some();
            let run = if known {
                conforming(cfg, vec![], eof)
            } else {
                let mut sent = false;
                world(cfg, move |s| {
                    if sent {
                        return Feed::Eof;
                    }
                    sent = true;
                    let mut f = Vec::new();
                    for m in [s.cfg.server_hello(), s.cfg.certificate(), s.cfg.ske_with(3, 23, &b2), s.cfg.shd()] {
                        f.extend(recs(HS, &m, 1 << 14));
                    }
                    Feed::Bytes(f)
                })
            };
            let r = run.connect();
            run.server.borrow_mut().check_finished = known;
            run.sync();
            let sv = run.server.borrow();
            let sent_cke = sv.msgs.len() > 1;
            if valid.is_some() {
                if !sent_cke {
                    return Err(format!("a valid key share {} is refused: {:?}", hex(b), r.err()));
                }
                if known {
                    r.map_err(|e| format!("a valid key share {} fails the handshake: {:?}", hex(b), e))?;
                    run.problems()?;
                }
                return Ok("valid share used".into());
            }
            let e = match r {
                Ok(_) => return Err(format!("the connection is established with the invalid key share {}", hex(b))),
                Err(e) => e,
            };
            if sent_cke {
                return Err(format!("the client answers the invalid key share {} with a ClientKeyExchange", hex(b)));
            }
            // an empty vector does not parse (opaque point<1..2^8-1>)
            let (want, alert) = if b.is_empty() { ("DecodeError", 50u8) } else { ("IllegalParameter", 47) };
            if kind(&e) != want {
                return Err(format!("the invalid key share {} is reported as {} ({}), expected {}", hex(b), kind(&e), e.desc, want));
            }
            let al = sv.alerts();
            if al.len() != 1 || al[0].1 != [2, alert] {
                return Err(format!("alerts on the wire {:?}, expected one fatal {}", al, alert));
            }
            c.add_nontrivial(1);
            Ok(format!("invalid share refused with {}", want))
        });
    });
    c.finish()
}

/// Points with a small y: for each small y, cube roots are not available by formula, so the cubic
/// x^3 - 3x + (b - y^2) is solved with Cantor-Zassenhaus style exponentiation modulo the cubic.
fn small_y() -> Vec<(BigUint, BigUint)> {
    let e = curve();
    let p = &e.p;
    let mut out = Vec::new();
    let zero = BigUint::from(0u32);
    let one = BigUint::from(1u32);
    let mut yv = 1u32;
    while out.len() < 6 && yv < 60 {
        let y = BigUint::from(yv);
        yv += 1;
        // f(x) = x^3 + a x + k
        let a = p - 3u32;
        let k = (&e.b + p - (&y * &y) % p) % p;
        let mulmod = |u: &[BigUint; 3], v: &[BigUint; 3]| -> [BigUint; 3] {
            let mut w = vec![zero.clone(); 5];
            for i in 0..3 {
                for j in 0..3 {
                    w[i + j] = (&w[i + j] + &u[i] * &v[j]) % p;
                }
            }
            for i in (3..5).rev() {
                let t = w[i].clone();
                w[i - 2] = (&w[i - 2] + (p - &t) * &a) % p;
                w[i - 3] = (&w[i - 3] + (p - &t) * &k) % p;
            }
            [w[0].clone(), w[1].clone(), w[2].clone()]
        };
        let powmod = |b: &[BigUint; 3], ex: &BigUint| {
            let mut r = [one.clone(), zero.clone(), zero.clone()];
            for i in (0..ex.bits()).rev() {
                r = mulmod(&r, &r);
                if ex.bit(i) {
                    r = mulmod(&r, b);
                }
            }
            r
        };
        // polynomial gcd of f and g over F_p, monic
        let gcd = |mut u: Vec<BigUint>, mut v: Vec<BigUint>| -> Vec<BigUint> {
            let trim = |w: &mut Vec<BigUint>| {
                while w.last() == Some(&zero) {
                    w.pop();
                }
            };
            trim(&mut u);
            trim(&mut v);
            while !v.is_empty() {
                while u.len() >= v.len() {
                    let q = u.last().unwrap() * e.inv(v.last().unwrap()) % p;
                    let s = u.len() - v.len();
                    for i in 0..v.len() {
                        u[s + i] = (&u[s + i] + (p - &q) * &v[i]) % p;
                    }
                    trim(&mut u);
                    if u.is_empty() {
                        break;
                    }
                }
                std::mem::swap(&mut u, &mut v);
            }
            let l = e.inv(u.last().unwrap());
            u.iter().map(|c| c * &l % p).collect()
        };
        let x = [zero.clone(), one.clone(), zero.clone()];
        let mut xp = powmod(&x, p);
        xp[1] = (&xp[1] + p - &one) % p;
        let f = vec![k.clone(), a.clone(), zero.clone(), one.clone()];
        let mut g = gcd(f, xp.to_vec());
        // split down to a linear factor
        let half = (p - &one) >> 1u32;
        let mut s = 1u32;
        while g.len() > 2 && s < 50 {
            let mut h = powmod(&[BigUint::from(s), one.clone(), zero.clone()], &half);
            h[0] = (&h[0] + p - &one) % p;
            let d = gcd(g.clone(), h.to_vec());
            if d.len() > 1 && d.len() < g.len() {
                g = d;
            }
            s += 1;
        }
        if g.len() == 2 {
            let r = (p - &g[0]) % p;
            assert!(e.on_curve(&r, &y), "HARNESS: cubic root");
            out.push((r, y));
        }
    }
    assert!(!out.is_empty(), "HARNESS: no points with small y");
    out
}
