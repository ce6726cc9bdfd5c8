//! C21: scalar multiplication and key agreement for every bit pattern of the scalar.
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::KeyExchange;
use husk::crypto::p256::{NPoint256, Point256, G};
use mc::num::*;
use mc::refcrypto::*;
use mc::report::Ctx;
use num_bigint::BigUint;
use rand::rngs::OsRng;

fn show(p: &Pt) -> String {
    match p {
        None => "infinity".into(),
        Some((x, y)) => format!("({:x}, {:x})", x, y),
    }
}

fn check(base: &Point256, k: &BigUint, want: &Pt, name: &str) -> Result<(), String> {
    let r = base.mult_scalar(&to_int(k)).normalize();
    let (wx, wy) = match want {
        // infinity normalises to the all-zero pair, which no affine point has
        None => (BigUint::from(0u32), BigUint::from(0u32)),
        Some((x, y)) => (x.clone(), y.clone()),
    };
    if r.x.v == to_int(&wx).v && r.y.v == to_int(&wy).v {
        Ok(())
    } else {
        Err(format!("{:x} * {} = ({:x}, {:x}), expected {}", k, name, to_big(&r.x), to_big(&r.y), show(want)))
    }
}

fn code_point(p: &Pt) -> Point256 {
    let (x, y) = p.as_ref().unwrap();
    NPoint256 { x: to_int(x), y: to_int(y) }.to_point()
}

fn main() {
    let c = Ctx::new("C21", "exploration");
    let e = curve();
    let one = BigUint::from(1u32);
    let th = c.thorough();
    c.rule(
        "Scalars: all one-hot, all two-hot, all runs of ones, all small values, all values near 0, n/2, n, 3n/2 mod 2^256, p and 2^256-1, \
         one scalar per byte value and byte position; each on base points G, 2G, -G, a point with small x and a point of large order multiple. \
         Expected multiples come from an affine big-integer table built independently. Non-trivial: more than one scalar bit set.",
    );
    // bases
    let mut lx = BigUint::from(1u32);
    let ly = loop {
        if let Some(y) = e.lift_x(&lx) {
            break y;
        }
        lx += 1u32;
    };
    let mut hx = &e.p - 1u32;
    let hy = loop {
        if let Some(y) = e.lift_x(&hx) {
            break y;
        }
        hx -= 1u32;
    };
    let bases: Vec<(&str, Pt, Point256)> = vec![
        ("G", e.g(), G),
        ("2G", e.add(&e.g(), &e.g()), code_point(&e.add(&e.g(), &e.g()))),
        ("-G", e.neg(&e.g()), code_point(&e.neg(&e.g()))),
        ("lift(small x)", Some((lx.clone(), ly.clone())), code_point(&Some((lx, ly)))),
        ("lift(large x)", Some((hx.clone(), hy.clone())), code_point(&Some((hx, hy)))),
    ];
    // 2^i * base, i = 0..=256
    let tables: Vec<Vec<Pt>> = bases
        .iter()
        .map(|b| {
            let mut v = vec![b.1.clone()];
            for i in 0..256 {
                let d = e.add(&v[i], &v[i]);
                v.push(d);
            }
            v
        })
        .collect();
    let by_table = |t: &Vec<Pt>, k: &BigUint| -> Pt {
        let mut r = None;
        for i in 0..256 {
            if k.bit(i) {
                r = e.add(&r, &t[i as usize]);
            }
        }
        r
    };

    // row i: one-hot i, two-hot (i, j), run of ones j..i
    for (bi, b) in bases.iter().enumerate() {
        let full = bi == 0 || th;
        let t = &tables[bi];
        c.par(256, |i| {
            c.case(&format!("hot/{}/{}", b.0, i), || {
                let mut n = 1;
                check(&b.2, &(&one << i), &t[i], b.0)?;
                for j in 0..i {
                    if !full && j + 1 != i && j != 0 && i != 255 {
                        continue;
                    }
                    check(&b.2, &((&one << i) + (&one << j)), &e.add(&t[i], &t[j]), b.0)?;
                    // bits j..i
                    check(&b.2, &((&one << (i + 1)) - (&one << j)), &e.add(&t[i + 1], &e.neg(&t[j])), b.0)?;
                    n += 2;
                }
                c.add_traces(n - 1);
                c.add_nontrivial(n - 1);
                Ok("one- and two-hot scalars and runs".into())
            });
        });
        let mut ks: Vec<BigUint> = Vec::new();
        let span = if th { 1500u32 } else { 300 };
        for d in 0..=span {
            ks.push(BigUint::from(d));
            ks.push(&e.n - d);
            ks.push(&e.n + d);
            ks.push((&e.n >> 1u32) - d);
            ks.push((&e.n >> 1u32) + d);
            ks.push((&one << 256u32) - 1u32 - d);
            if d < 40 {
                ks.push(&e.p - d);
                ks.push(&e.p + d);
                ks.push((&e.n << 1u32) / 3u32 + d);
                ks.push((&one << 128u32) + d);
                ks.push(&e.n - (&one << 128u32) + d);
            }
        }
        // every byte value in every byte position
        for pos in 0..32u32 {
            for v in (1..256u32).step_by(if bi == 0 { 1 } else { 17 }) {
                ks.push(BigUint::from(v) << (8 * pos));
            }
        }
        // limb corners
        if bi == 0 || th {
            for l in lattice(&[0, 0xffff_ffff]) {
                ks.push(big(&l));
            }
            for l in lattice(&[0xaaaa_aaaa, 0x5555_5555]) {
                ks.push(big(&l));
            }
        }
        ks.retain(|k| k.bits() <= 256);
        ks.sort();
        ks.dedup();
        c.par((ks.len() + 15) / 16, |ci| {
            c.case(&format!("near/{}/{}", b.0, ci), || {
                let s = &ks[ci * 16..((ci + 1) * 16).min(ks.len())];
                for k in s {
                    check(&b.2, k, &by_table(t, k), b.0)?;
                }
                c.add_traces(s.len() as u64 - 1);
                c.add_nontrivial(s.iter().filter(|k| k.count_ones() > 1).count() as u64);
                Ok("scalars near the special values".into())
            });
        });
    }

    // key agreement: both ends of an exchange obtain the same 32-byte secret, leading zeros kept
    let ske = |pt: &Pt| {
        let mut v = vec![3u8, 0, 23, 65];
        v.extend(encode_pt(pt));
        v.extend_from_slice(&[4, 1, 0, 4, 1, 2, 3, 4]);
        v
    };
    let n_seeds = if th { 64u64 } else { 8 };
    c.par(n_seeds as usize, |s| {
        c.case(&format!("agree/{}", s), || {
            let kex = EllipticDiffieHellman;
            // the client's key share depends on the random source only, so it can be read off first
            let share = |d: &Pt| -> Result<(Pt, Vec<u8>), String> {
                getrandom::script(Vec::new(), 100 + s as u64);
                let (cke, pms) = kex.compute_keys(&ske(d), &mut OsRng).map_err(|e| format!("refused a valid share: {:?}", e.kind))?;
                if cke.len() != 66 || cke[0] != 65 {
                    return Err(format!("malformed key share {}", hex(&cke)));
                }
                let p = decode_pt(&cke[1..]).ok_or(format!("key share is not a valid point: {}", hex(&cke)))?;
                Ok((Some(p), pms))
            };
            let (pc, _) = share(&e.g())?;
            let mut q: Pt = None;
            let mut sg: Pt = None;
            let (mut lead, mut n) = (0u64, 0u64);
            let limit = if th { 3000 } else { 700 };
            for d in 1..=limit {
                q = e.add(&q, &pc);
                sg = e.add(&sg, &e.g());
                let secret = be32(&q.as_ref().unwrap().0);
                if d <= 8 || secret[0] == 0 {
                    lead += (secret[0] == 0) as u64;
                    let (pc2, pms) = share(&sg)?;
                    if show(&pc2) != show(&pc) {
                        return Err("the key share changes with the peer's".into());
                    }
                    if pms != secret {
                        return Err(format!("server scalar {}: the two ends disagree: {} / {}", d, hex(&pms), hex(&secret)));
                    }
                    n += 1;
                }
            }
            c.add_traces(n - 1);
            c.add_nontrivial(n);
            c.count("shared secrets with a leading zero byte", lead);
            Ok("both ends agree".into())
        });
    });
    c.finish()
}
