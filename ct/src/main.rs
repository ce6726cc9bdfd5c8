//! C26: secrets decide neither which instructions run nor which addresses are touched.
mod trace;

use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{self, NPoint256, Point256};
use husk::crypto::sha2::sha256;
use inst::call;
use inst::{Client, Io, Pipe};
use mc::drive::pattern;
use mc::net::{End, Feed};
use mc::num::*;
use mc::refcrypto::{curve, encode_pt};
use mc::reftls::*;
use mc::report::Ctx;
use num_bigint::BigUint;
use std::hint::black_box;
use std::io::{Read, Write};
use trace::Trace;

#[global_allocator]
static A: trace::Arena = trace::Arena;

/// Trace of one call on this thread, with its operands. The call's result is dropped inside.
fn tr<X>(prepare: impl FnOnce() -> X, f: impl FnOnce(X)) -> Trace {
    trace::reset();
    let x = trace::prepare(prepare);
    trace::on(|| f(x));
    trace::take()
}

fn explain(base: &dyn Fn() -> Trace, other: &dyn Fn() -> Trace) -> String {
    trace::log(true);
    base();
    let a = trace::log(true);
    other();
    let b = trace::log(false);
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let name = |e: Option<&(u8, u64)>| match e {
        None => "nothing more".to_string(),
        Some((1, pc)) => format!("block {:#x}", pc),
        Some((2, a)) => format!("load from {:#x}", a),
        Some((3, a)) => format!("store to {:#x}", a),
        Some((4, v)) => format!("division by {}", v),
        Some((5, v)) => format!("comparison of {} bytes ending after {}", v >> 32, v & 0xffff_ffff),
        Some((k, v)) => format!("allocation({}) of {}", k, v),
    };
    let last = a[..i].iter().rev().find(|e| e.0 == 1).map_or("the start".into(), |e| format!("block {:#x}", e.1));
    format!("they part at event {} after {}: {} against {}", i, last, name(a.get(i)), name(b.get(i)))
}

/// One family: `run(i)` executes member i; all members must give one trace.
struct Family<'a> {
    name: String,
    n: usize,
    run: Box<dyn Fn(usize) -> Trace + Sync + 'a>,
}

fn check(c: &Ctx, fams: &[Family]) {
    // members are spread over the cores in blocks; each block is compared with member 0 on its own thread
    let mut jobs = vec![];
    for (f, fam) in fams.iter().enumerate() {
        let step = 64.max(fam.n / 64);
        let mut a = 0;
        while a < fam.n {
            jobs.push((f, a, (a + step).min(fam.n)));
            a += step;
        }
    }
    c.par(jobs.len(), |j| {
        let (f, a, b) = jobs[j];
        let fam = &fams[f];
        let pre = format!("{}/", fam.name);
        if !c.wants_prefix(&pre) {
            return;
        }
        let base = (fam.run)(0);
        if base.blocks == 0 {
            panic!("HARNESS: {} is not traced", fam.name);
        }
        for i in a..b {
            let go = c.case(&format!("{}{}", pre, i), || {
                let t = (fam.run)(i);
                c.add_nontrivial((i > 0) as u64);
                if t == base {
                    Ok(format!("{}: one trace", fam.name.split('/').next().unwrap()))
                } else {
                    Err(format!(
                        "member 0 and member {} of {} (they differ in secrets only) run differently: {}",
                        i,
                        fam.name,
                        explain(&|| (fam.run)(0), &|| (fam.run)(i))
                    ))
                }
            });
            if !go {
                return;
            }
        }
    });
}

fn scalars(th: bool) -> Vec<BigUint> {
    let one = BigUint::from(1u8);
    let n = curve().n.clone();
    let top = &one << 256;
    let mut v = vec![&one << 200u32 | BigUint::from(0x1234567u32)];
    for k in 0..256u32 {
        v.push(&one << k);
        v.push((&one << (k + 1)) - 1u8);
        v.push(&top - (&one << k));
    }
    for k in 1..=40u32 {
        v.push(BigUint::from(k));
        v.push(&n - k);
        v.push(&top - k);
        v.push(&n + k);
        v.push((&n >> 1) + k);
        v.push((&n >> 1) - k);
    }
    v.push(BigUint::from(0u8));
    v.push(n.clone());
    for s in 0..(if th { 2000 } else { 100u32 }) {
        v.push(BigUint::from_bytes_be(&sha256(&s.to_be_bytes())));
    }
    if th {
        for a in 0..256u32 {
            for b in (0..a).step_by(3) {
                v.push((&one << a) | (&one << b));
            }
        }
    }
    v
}

fn n_minus(k: impl Into<BigUint>) -> BigUint {
    curve().n.clone() - k.into()
}

fn point(k: u32) -> Point256 {
    if k == 1 {
        return p256::G;
    }
    let c = curve();
    let p = c.mul(&BigUint::from(k), &c.g());
    
    NPoint256::from_uncompressed_bytes(&encode_pt(&p)).expect("HARNESS point").to_point()
}

fn unseal(k: &[u8], ct: &[u8], nonce: &[u8]) -> Trace {
    tr(
        || (k.to_vec(), ct.to_vec(), pattern(8, 13)),
        |(k, ct, ad)| call::open(k, nonce, black_box(&ct), &ad),
    )
}

/// The transport of a traced client: everything it does is the harness' and is not traced.
struct Quiet(End);
impl Io for Quiet {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        trace::off(|| self.0.read(b))
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        trace::off(|| self.0.write(b))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        trace::off(|| self.0.flush())
    }
}

#[derive(Clone)]
struct Session {
    seed: u64,
    script: Vec<u8>,
    d: BigUint,
    /// xor into the server's verify data, record bytes
    fin_pt: Vec<(usize, u8)>,
    fin_ct: Vec<(usize, u8)>,
    down: Vec<u8>,
    up: Vec<u8>,
    /// xor into the (first) application record behind its header
    down_ct: Vec<(usize, u8)>,
}

fn session() -> Session {
    Session {
        seed: 1,
        script: vec![],
        d: BigUint::from(0xabcdef0123456789u64),
        fin_pt: vec![],
        fin_ct: vec![],
        down: pattern(4, 300),
        up: pattern(5, 100),
        down_ct: vec![],
    }
}

/// A whole connection with its secrets taken from the session. The peer's own work is not traced.
/// The client's data (as `down`, `up`) flows through read and write.
fn connection(s: &Session) -> (Trace, bool, Vec<u8>) {
    let s2 = s.clone();
    let mut stage = 0;
    let r = mc::drive::world(default_cfg().with_d(s.d.clone()), move |sv| {
        stage += 1;
        match stage {
            1 => Feed::Bytes(recs(HS, &sv.cfg.flight(), 1 << 14)),
            2 => {
                let mut m = sv.finished().expect("HARNESS finished");
                for &(i, x) in &s2.fin_pt {
                    m[4 + i] ^= x;
                }
                let mut f = rec(CCS, &[1]);
                let mut rc = sv.seal(HS, &m);
                for &(i, x) in &s2.fin_ct {
                    rc[5 + i] ^= x;
                }
                f.extend(rc);
                let mut d = sv.seal(APP, &s2.down);
                for &(i, x) in &s2.down_ct {
                    d[5 + i] ^= x;
                }
                f.extend(d);
                Feed::Bytes(f)
            }
            _ => Feed::Eof,
        }
    });
    // one flat script, so that the stand-in generator itself does nothing that depends on the session
    let mut script = s.script.clone();
    let mut k = 0u64;
    while script.len() < 1024 {
        script.extend(sha256(&[s.seed.to_be_bytes(), k.to_be_bytes()].concat()));
        k += 1;
    }
    script.truncate(1024);
    getrandom::script(script, s.seed);
    let (a, b) = (Pipe(Box::new(Quiet(End(r.world.clone())))), Pipe(Box::new(Quiet(End(r.world.clone())))));
    let mut n = 0;
    let mut ok = false;
    trace::reset();
    let (mut got, up) = trace::prepare(|| (vec![0u8; s.down.len()], s.up.clone()));
    trace::on(|| {
        let c = inst::connect(a, b);
        if let Ok(mut c) = c {
            ok = true;
            let c: &mut Client = &mut c;
            let _ = inst::write_all(c, &up);
            n = inst::read(c, &mut got).unwrap_or(0);
            inst::close(c);
        }
    });
    let t = trace::take();
    (t, ok, got[..n].to_vec())
}

fn main() {
    let c = Ctx::new("C26", "exploration");
    let th = c.thorough();
    c.rule(
        "The crate is compiled with tracing of every basic block, load address, store address, divisor and slice comparison, optimised as a release build. A family is a set of executions that differ in \
         secret values only (lengths and public values equal); every member is executed on the real code and must give exactly the trace of the first. Forged records and wrong Finished messages form families \
         of their own: where the difference lies is secret until the end. Non-trivial: a member other than the reference.",
    );
    c.assume("instruction timing that depends on operand values (other than division) and what the code generator does after the last optimisation pass are not observed; the standard library's own code is observed only through slice comparisons and the control flow inlined into the crate");

    let sc: &[BigUint] = scalars(th).leak();
    let mut fams: Vec<Family> = vec![];

    // ---- scalar multiplication
    let pts: Vec<u32> = if th { vec![1, 2, 3, 7, 1000003] } else { vec![1, 5] };
    for &p in &pts {
        let pt = point(p);

        fams.push(Family {
            name: format!("scalar/{}", p),
            n: sc.len(),
            run: Box::new(move |i| {
                let k = to_int(&sc[i]);
                tr(
                    || (pt, k),
                    |x| call::scalar(black_box(&x.0), black_box(&x.1)),
                )
            }),
        });
    }
    c.bound(format!("scalar multiplication of {} points by {} scalars (powers of two, runs of ones, neighbours of 0, n/2, n, 2^256)", pts.len(), sc.len()));

    // ---- field arithmetic
    let p = curve().p.clone();
    let mut ops: Vec<BigUint> = vec![BigUint::from(0x1234_5678_9abc_def0u64) << 130];
    for k in 0..=4u32 {
        ops.push(BigUint::from(k));
        ops.push(&p - 1u8 - k);
        ops.push((&p >> 1) + k);
        ops.push((&p >> 1) - k);
    }
    for k in (0..256u32).step_by(if th { 8 } else { 32 }) {
        ops.push((BigUint::from(1u8) << k) % &p);
        ops.push(((BigUint::from(1u8) << k) - 1u8) % &p);
    }
    for k in 0..8u32 {
        ops.push((BigUint::from(0xffff_ffffu32) << (32 * k)) % &p);
    }
    let ops: Vec<Int256> = ops.iter().map(to_int).collect();
    let m = ops.len();
    let ops: &[Int256] = ops.leak();
    type Op = (&'static str, fn(&Int256, &Int256));
    let two: Vec<Op> = vec![("add", call::add), ("sub", call::sub), ("mult", call::mult), ("compare", call::compare), ("choose", call::choose)];
    for (n, f) in two {
        fams.push(Family { name: format!("field/{}", n), n: m * m, run: Box::new(move |i| tr(|| (ops[i / m], ops[i % m]), |x| { let x = black_box(&x); f(&x.0, &x.1) })) });
    }
    let onearg: Vec<Op> = vec![
        ("double", call::double),
        ("square", call::square),
        ("inverse", call::inverse),
        ("halve", call::halve),
        ("reduce", call::reduce),
        ("to_bytes", call::to_bytes),
    ];
    for (n, f) in onearg {
        fams.push(Family { name: format!("field/{}", n), n: m, run: Box::new(move |i| tr(|| ops[i], |x| f(black_box(&x), &x))) });
    }
    c.bound(format!("field operations on all pairs of {} operands", m));

    // ---- hashing, PRF
    let lens: &[usize] = if th { &[0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 1000] } else { &[0, 1, 32, 55, 56, 64, 65, 300] };
    let fill = |n: usize, i: usize| -> Vec<u8> {
        match i {
            0 => pattern(1, n),
            1 => vec![0; n],
            2 => vec![0xff; n],
            3 => vec![0x80; n],
            i if i < 4 + 8 * n.min(64) => {
                let mut v = vec![0; n];
                v[(i - 4) / 8] = 1 << ((i - 4) % 8);
                v
            }
            i => pattern(i as u8, n),
        }
    };
    let members = |n: usize| 4 + 8 * n.min(64) + 20;
    for &n in lens {
        fams.push(Family {
            name: format!("sha256/{}", n),
            n: members(n),
            run: Box::new(move |i| {
                let d = fill(n, i);
                tr(
                    || d.clone(),
                    |d| call::sha256(black_box(&d)),
                )
            }),
        });
        for side in 0..2 {
            fams.push(Family {
                name: format!("hmac/{}/{}", side, n),
                n: members(n),
                run: Box::new(move |i| {
                    let (k, d) = if side == 0 { (fill(n, i), fill(77, 0)) } else { (fill(32, 0), fill(n, i)) };
                    tr(
                        || (k.clone(), d.clone()),
                        |(k, d)| call::hmac(black_box(&k), black_box(&d)),
                    )
                }),
            });
        }
    }
    for n in [32usize, 48] {
        fams.push(Family {
            name: format!("prf/{}", n),
            n: members(n),
            run: Box::new(move |i| {
                let k = fill(n, i);
                let s = fill(77, 0);
                tr(
                    || (k.clone(), s.clone()),
                    |(k, s)| call::prf(black_box(k), s),
                )
            }),
        });
    }
    c.bound(format!("SHA-256, HMAC (key and message) and PRF at {} lengths, every one-bit content of the first 64 bytes and 24 others", lens.len()));

    // ---- comparison of verify data
    for n in if th { (1..=64).collect::<Vec<usize>>() } else { vec![1, 2, 12, 16, 31, 32, 33] } {
        fams.push(Family {
            name: format!("compare/{}", n),
            n: 1 + 8 * n + 2 * n,
            run: Box::new(move |i| {
                let a = pattern(3, n);
                let mut b = a.clone();
                if i > 8 * n {
                    let k = i - 8 * n - 1;
                    for x in &mut b[k / 2..] {
                        *x ^= if k % 2 == 0 { 0xff } else { 0x55 };
                    }
                } else if i > 0 {
                    b[(i - 1) / 8] ^= 1 << ((i - 1) % 8);
                }
                tr(
                    || (a.clone(), b.clone()),
                    |(a, b)| call::compare_bytes(black_box(&a), black_box(&b)),
                )
            }),
        });
    }
    c.bound("comparison: every one-bit difference, every differing tail, and equality");

    // ---- record protection
    let dl: &[usize] = if th { &[0, 1, 2, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 500, 5000] } else { &[0, 1, 15, 16, 17, 63, 64, 65, 500] };
    let nonce = pattern(9, 12);
    let nonce: &[u8] = nonce.leak();
    for &n in dl {
        for side in 0..2 {
            fams.push(Family {
                name: format!("seal/{}/{}", side, n),
                n: members(if side == 0 { 32 } else { n }),
                run: Box::new(move |i| {
                    let (k, d) = if side == 0 { (fill(32, i), fill(n, 0)) } else { (fill(32, 0), fill(n, i)) };
                    let ad = pattern(8, 13);
                    tr(
                        || (k.clone(), d.clone(), ad.clone()),
                        |(k, d, ad)| call::seal(k, nonce, black_box(&d), &ad),
                    )
                }),
            });
            fams.push(Family {
                name: format!("open/{}/{}", side, n),
                n: members(if side == 0 { 32 } else { n }),
                run: Box::new(move |i| {
                    let (k, d) = if side == 0 { (fill(32, i), fill(n, 0)) } else { (fill(32, 0), fill(n, i)) };
                    let ad = pattern(8, 13);
                    let ct = mc::refcrypto::aead_seal(&k[..].try_into().unwrap(), &nonce[..].try_into().unwrap(), &d, &ad);
                    unseal(&k, &ct, nonce)
                }),
            });
        }
        fams.push(Family {
            name: format!("forged/{}", n),
            n: 8 * (n + 16).min(200) + 16,
            run: Box::new(move |i| {
                let k = fill(32, 0);
                let d = fill(n, 0);
                let ad = pattern(8, 13);
                let mut ct = mc::refcrypto::aead_seal(&k[..].try_into().unwrap(), &nonce[..].try_into().unwrap(), &d, &ad);
                let len = ct.len();
                let bits = 8 * (n + 16).min(200);
                if i < bits {
                    // from the end: the tag first
                    ct[len - 1 - i / 8] ^= 1 << (i % 8);
                } else {
                    for x in &mut ct[len - 16 + (i - bits)..] {
                        *x ^= 0xff;
                    }
                }
                unseal(&k, &ct, nonce)
            }),
        });
    }
    c.bound(format!("sealing and opening {} lengths with every one-bit and corner key and plaintext; every one-bit forgery of the tag and of up to 184 ciphertext bytes", dl.len()));

    // ---- whole connections
    let mut ss: Vec<Session> = vec![];
    for seed in 1..=(if th { 400 } else { 24u64 }) {
        ss.push(Session { seed, ..session() });
    }
    for k in [1u32, 2, 3, 255, 256] {
        // private scalar of the client: as little-endian limbs after the 32 bytes of the client random
        let mut script = vec![7u8; 32];
        script.extend((k as u64).to_le_bytes());
        script.extend([0u8; 24]);
        ss.push(Session { script: script.clone(), ..session() });
    }
    for x in [n_minus(1u8), n_minus(2u8), n_minus(1u64 << 40)].into_iter().chain((0..32).map(|i| n_minus(1u8) - (BigUint::from(1u8) << (8 * i)))) {
        // scalars below the group order that share ever longer prefixes with it
        let mut script = vec![7u8; 32];
        let mut b = x.to_bytes_le();
        b.resize(32, 0);
        script.extend(b);
        ss.push(Session { script, ..session() });
    }
    for k in 1..=12u32 {
        ss.push(Session { d: BigUint::from(k), ..session() });
    }
    for i in 1..8 {
        ss.push(Session { down: fill(300, i), up: fill(100, i), ..session() });
    }
    let (nss, good) = (ss.len(), &*ss.leak());
    fams.push(Family {
        name: "connection".into(),
        n: nss,
        run: Box::new(move |i| {
            let (t, ok, got) = connection(&good[i]);
            // that it works is for other properties to say
            black_box((ok, got));
            t
        }),
    });
    c.bound(format!("{} whole connections (handshake, write, read, close) with different private scalars, peer keys and data", nss));
    let mut wrong: Vec<Session> = vec![];
    for i in 0..12 * 8 {
        wrong.push(Session { fin_pt: vec![(i / 8, 1 << (i % 8))], ..session() });
    }
    for i in 0..12 {
        wrong.push(Session { fin_pt: (i..12).map(|k| (k, 0xff)).collect(), ..session() });
    }
    let wrong = &*wrong.leak();
    fams.push(Family { name: "finished".into(), n: wrong.len(), run: Box::new(move |i| connection(&wrong[i]).0) });
    let mut forged: Vec<Session> = vec![];
    for i in 0..16 * 8 {
        forged.push(Session { fin_ct: vec![(16 + i / 8, 1 << (i % 8))], ..session() });
    }
    for i in 0..16 {
        forged.push(Session { fin_ct: vec![(i, 1)], ..session() });
    }
    let forged = &*forged.leak();
    fams.push(Family { name: "finished-record".into(), n: forged.len(), run: Box::new(move |i| connection(&forged[i]).0) });
    let mut fdata: Vec<Session> = vec![];
    for i in 0..16 * 8 {
        fdata.push(Session { down_ct: vec![(300 + i / 8, 1 << (i % 8))], ..session() });
    }
    for i in (0..300).step_by(7) {
        fdata.push(Session { down_ct: vec![(i, 1)], ..session() });
    }
    let fdata = &*fdata.leak();
    fams.push(Family { name: "forged-record".into(), n: fdata.len(), run: Box::new(move |i| connection(&fdata[i]).0) });
    c.bound("server Finished wrong in every bit, its record forged in every tag bit; application record forged in every tag bit: inside whole connections");

    check(&c, &fams);
    drop(fams);

    // ---- a forged record costs as much as an authentic one: the extra is the same at every length
    c.par(1, |_| {
        c.case("cost-of-a-forgery", || {
            let mut seen: Vec<(usize, i64)> = vec![];
            for n in (0..=2048usize).step_by(64) {
                let run = |bad: bool| {
                    let k = fill(32, 0);
                    let d = fill(n, 0);
                    let ad = pattern(8, 13);
                    let mut ct = mc::refcrypto::aead_seal(&k[..].try_into().unwrap(), &nonce[..].try_into().unwrap(), &d, &ad);
                    let l = ct.len();
                    ct[l - 1] ^= bad as u8;
                    unseal(&k, &ct, nonce)
                };
                seen.push((n, run(true).blocks as i64 - run(false).blocks as i64));
            }
            let bad = seen.iter().find(|x| x.1 != seen[0].1);
            match bad {
                Some(b) => Err(format!("a forged record of {} bytes takes {} blocks more than an authentic one, one of {} bytes {}: the tag is checked before the rest is done", seen[0].0, seen[0].1, b.0, b.1)),
                None => Ok("a forged record costs what an authentic one costs".into()),
            }
        });
    });
    c.finish()
}
