//! C20: P-256 field arithmetic over the whole limb-corner lattice, against big integers.
use husk::crypto::p256::int256::{Int256, P256};
use husk::crypto::wrapping::Wrapping as W;
use mc::num::*;
use mc::refcrypto::*;
use mc::report::Ctx;
use num_bigint::BigUint;

fn eq(what: &str, got: &Int256, want: &BigUint, ins: &[&Int256]) -> Result<(), String> {
    // canonical: exactly the integer in [0, p), limb by limb
    if got.v == to_int(want).v {
        return Ok(());
    }
    let ins: Vec<String> = ins.iter().map(|a| format!("{:064x}", to_big(a))).collect();
    Err(format!("{}({}) = {:064x}, expected {:064x}", what, ins.join(", "), to_big(got), want))
}

fn binary(a: &Int256, ab: &BigUint, b: &Int256, bb: &BigUint, p: &BigUint) -> Result<(), String> {
    let s = ab + bb;
    eq("add", &a.add(b), &(if s >= *p { s - p } else { s }), &[a, b])?;
    eq("sub", &a.sub(b), &(if ab >= bb { ab - bb } else { ab + p - bb }), &[a, b])?;
    eq("mult", &a.mult(b), &(ab * bb % p), &[a, b])?;
    let c = a.compare(b).0;
    if c != (ab != bb) as u32 {
        return Err(format!("compare({:x}, {:x}) = {}", ab, bb, c));
    }
    eq("choose0", &Int256::choose(W(0), a, b), ab, &[a, b])?;
    eq("choose1", &Int256::choose(W(1), a, b), bb, &[a, b])
}

fn unary(a: &Int256, ab: &BigUint, p: &BigUint) -> Result<(), String> {
    eq("square", &a.square(), &(ab * ab % p), &[a])?;
    eq("double", &a.double(), &((ab << 1u32) % p), &[a])?;
    let half = if ab.bit(0) { (ab + p) >> 1u32 } else { ab >> 1u32 };
    eq("divide_by_2", &a.divide_by_2(), &half, &[a])?;
    if a.to_bytes() != be32(ab) {
        return Err(format!("to_bytes({:x})", ab));
    }
    match Int256::from_bytes(&be32(ab)) {
        Some(x) => eq("from_bytes", &x, ab, &[a]),
        None => Err(format!("from_bytes refuses {:x}", ab)),
    }
}

/// Any 256-bit value, reduced or not.
fn raw(l: &[u32; 8], p: &BigUint) -> Result<(), String> {
    let a = limbs(l);
    let ab = big(l);
    eq("reduce_once_zero", &a.reduce_once_zero(), &(&ab % p), &[&a])?;
    eq("reduce_once(0)", &a.reduce_once(W(0)), &(&ab % p), &[&a])?;
    let with = &ab + (BigUint::from(1u32) << 256u32);
    if with < (p << 1u32) {
        eq("reduce_once(1)", &a.reduce_once(W(1)), &(&with % p), &[&a])?;
    }
    if a.compare(&a).0 != 0 {
        return Err("compare(a, a)".into());
    }
    if a.to_bytes() != be32(&ab) {
        return Err(format!("to_bytes({:x})", ab));
    }
    Ok(())
}

fn inverse(a: &Int256, ab: &BigUint, p: &BigUint) -> Result<(), String> {
    let i = a.inverse();
    let ib = to_big(&i);
    if ib >= *p {
        return Err(format!("inverse({:x}) is not reduced: {:x}", ab, ib));
    }
    let pr = ab * &ib % p;
    let ok = if ab == &BigUint::from(0u32) { ib == BigUint::from(0u32) } else { pr == BigUint::from(1u32) };
    if ok {
        Ok(())
    } else {
        Err(format!("inverse({:x}) = {:x}", ab, ib))
    }
}

fn main() {
    let c = Ctx::new("C20", "exploration");
    let p = curve().p.clone();
    assert_eq!(to_big(&P256), p, "HARNESS? the code's prime differs");
    let one = BigUint::from(1u32);

    // operands: every 8-limb value over {0, 1, 2^32-1} below p, plus specials
    let syms: &[u32] = &[0, 1, 0xffff_ffff];
    let mut ops: Vec<BigUint> = lattice(syms).map(|l| big(&l)).filter(|v| *v < p).collect();
    let mut special: Vec<BigUint> = Vec::new();
    for i in 0..256u32 {
        special.push(&one << i);
        special.push((&one << i) - &one);
        special.push(&p - (&one << i.min(255)) % &p);
    }
    for k in 1..40u32 {
        special.push(BigUint::from(k));
        special.push(&p - k);
        special.push((&p >> 1u32) + k);
        special.push((&p >> 1u32) - k);
        special.push((&one << 256u32) - &p - k);
        special.push((&one << 256u32) - &p + k);
    }
    special.retain(|v| *v < p);
    special.sort();
    special.dedup();
    ops.extend(special.iter().cloned());
    ops.sort();
    ops.dedup();
    if c.thorough() {
        ops.extend(lattice(&[0, 0x8000_0000, 0xffff_fffe, 0x7fff_ffff]).map(|l| big(&l)).filter(|v| *v < p).take(9000));
        ops.sort();
        ops.dedup();
    }
    let ints: Vec<Int256> = ops.iter().map(to_int).collect();
    c.rule(
        "pairs: every ordered pair (a, b) from the operand lattice, each put through add, sub, mult, compare and choose; \
         targeted: for every operand a and every target t the operands that make the sum, difference or product equal t; \
         unary and raw: every value of the wider lattice. Non-trivial: the integer result is not below p before reduction (or is negative).",
    );
    c.bound(format!("{} operands, {} ordered pairs", ops.len(), ops.len() * ops.len()));
    c.bound("unary/raw lattice: all 8-limb values over 6 symbols");
    c.assume("field operands are reduced (the documented precondition); reduce_once takes any value below 2p");

    let chunk = 8usize;
    c.par((ops.len() + chunk - 1) / chunk, |ci| {
        let lo = ci * chunk;
        let hi = (lo + chunk).min(ops.len());
        c.case(&format!("pairs/{}", lo), || {
            let mut nt = 0u64;
            for i in lo..hi {
                for j in 0..ops.len() {
                    binary(&ints[i], &ops[i], &ints[j], &ops[j], &p)?;
                    nt += (j > i || &ops[i] + &ops[j] >= p) as u64;
                }
            }
            c.add_traces(((hi - lo) * ops.len()) as u64 - 1);
            c.add_nontrivial(nt);
            Ok("pairs agree".into())
        });
    });

    // results at chosen targets: carry and final-subtraction corners the lattice alone need not meet
    let mut targets: Vec<BigUint> = (0..24u32).map(BigUint::from).collect();
    targets.extend((1..24u32).map(|k| &p - k));
    for k in [32u32, 64, 96, 128, 160, 192, 224, 255] {
        for d in 0..2u32 {
            targets.push((&one << k) - d);
            targets.push(&p - (&one << k) % &p - d);
        }
    }
    let nz: Vec<&BigUint> = ops.iter().filter(|v| v.bits() > 0).collect();
    let step = if c.thorough() { 1 } else { 3 };
    c.par((nz.len() + 31) / 32, |ci| {
        c.case(&format!("targets/{}", ci * 32), || {
            let mut n = 0;
            for i in (ci * 32..((ci + 1) * 32).min(nz.len())).step_by(step) {
                let a = nz[i];
                let ai = to_int(a);
                let inv = a.modinv(&p).unwrap();
                for t in &targets {
                    for b in [(&p + t - a) % &p, (a + &p - t) % &p, t * &inv % &p] {
                        binary(&ai, a, &to_int(&b), &b, &p)?;
                        n += 1;
                    }
                }
            }
            c.add_traces(n as u64);
            c.add_nontrivial(n as u64);
            Ok("targets agree".into())
        });
    });

    let wide: &[u32] = &[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let total = (wide.len() as u64).pow(8);
    let per = 1 << 13;
    c.par(((total + per - 1) / per) as usize, |ci| {
        c.case(&format!("unary/{}", ci), || {
            let lo = ci as u64 * per;
            let hi = (lo + per).min(total);
            let mut nt = 0;
            for i in lo..hi {
                let l = lattice_at(wide, i);
                raw(&l, &p)?;
                let ab = big(&l);
                if ab < p {
                    unary(&limbs(&l), &ab, &p)?;
                } else {
                    nt += 1;
                }
            }
            c.add_nontrivial(nt);
            c.add_traces(hi - lo);
            Ok("unary and raw agree".into())
        });
    });
    // values within 2^12 of 0, p, 2p - 2^256 and 2^256
    c.par(4, |w| {
        c.case(&format!("near/{}", w), || {
            let base = match w {
                0 => BigUint::from(4096u32),
                1 => p.clone(),
                2 => (&p << 1u32) - (&one << 256u32),
                _ => (&one << 256u32) - 4097u32,
            };
            for k in 0..8192u32 {
                let v = &base + k - 4096u32;
                if v.bits() > 256 {
                    continue;
                }
                let i = to_int(&v);
                let mut l = [0u32; 8];
                for x in 0..8 {
                    l[x] = i.v[x].0;
                }
                raw(&l, &p)?;
                if v < p {
                    unary(&i, &v, &p)?;
                }
            }
            c.add_traces(8191);
            Ok("near agree".into())
        });
    });
    let inv_ops: Vec<&BigUint> = if c.thorough() { ops.iter().collect() } else { ops.iter().step_by(2).chain(special.iter()).collect() };
    c.par((inv_ops.len() + 63) / 64, |ci| {
        c.case(&format!("inverse/{}", ci), || {
            let s = &inv_ops[ci * 64..((ci + 1) * 64).min(inv_ops.len())];
            for a in s {
                inverse(&to_int(a), a, &p)?;
            }
            c.add_traces(s.len() as u64 - 1);
            c.add_nontrivial(s.len() as u64);
            Ok("inverses agree".into())
        });
    });
    c.par(1, |_| {
        c.case("lengths", || {
            for n in 0..70usize {
                if n != 32 && Int256::from_bytes(&vec![1u8; n]).is_some() {
                    return Err(format!("from_bytes accepts {} bytes", n));
                }
            }
            Ok("lengths refused".into())
        });
    });
    c.finish()
}
