//! C22: client random and ephemeral key for every generator output.
use mc::net::*;
use mc::drive::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use num_bigint::BigUint;
use std::collections::BTreeSet;
use std::sync::Mutex;

/// One connection with the generator's first bytes given: client random, key share, bytes drawn.
fn connect(script: Vec<u8>, seed: u64) -> Result<([u8; 32], Vec<u8>, u64), String> {
    let run = conforming(default_cfg(), vec![], eof);
    let r = run.connect_scripted(script, seed);
    let drawn = getrandom::served();
    look(&run, r.map(|_| ()).map_err(|e| format!("{:?} {}", e.kind, e.desc))).map(|(a, b)| (a, b, drawn))
}

fn look(run: &Run, r: Result<(), String>) -> Result<([u8; 32], Vec<u8>), String> {
    run.sync();
    run.problems()?;
    r.map_err(|e| format!("the handshake with a conforming server fails: {}", e))?;
    let s = run.server.borrow();
    let cr = s.client_random.ok_or("no client random seen")?;
    let sh = s.client_point.clone().ok_or("no key share seen")?;
    if decode_pt(&sh).is_none() {
        return Err(format!("the key share is not a valid uncompressed point: {}", hex(&sh)));
    }
    Ok((cr, sh))
}

fn public_of(x: &[u8]) -> Vec<u8> {
    match curve().mul(&BigUint::from_bytes_be(x), &curve().g()) {
        None => vec![],
        p => encode_pt(&p),
    }
}

/// the generator's stream, `first` and then that of `seed`, written out
fn stream(first: &[u8], seed: u64, n: usize) -> Vec<u8> {
    getrandom::script(first.to_vec(), seed);
    let mut v = vec![0; n];
    rand::RngCore::fill_bytes(&mut rand::rngs::OsRng, &mut v);
    v
}

fn main() {
    let c = Ctx::new("C22", "model_checking");
    let th = c.thorough();
    c.rule(
        "The generator is the harness: its output is enumerated. (a) from several base streams every single generator bit drawn during a handshake is flipped; every bit of the client random must \
         follow some generator bit, and at least 256 generator bits must move the key share without moving the client random, all to different shares; the share is not the multiple of G by the client random \
         or by any 32 raw bytes that also appear on the wire. (b) all sequences of special candidates up to a depth, in either byte order, at the place of the scalar and over the whole stream: the share is a valid point and the \
         handshake completes against the reference server. (c) consecutive connections on one generator, after successes and failures, never repeat a random or a share.",
    );
    // (a)
    let seeds: Vec<u64> = if th { (1..=24).collect() } else { vec![1, 2, 3] };
    // ordinary streams, and streams with conspicuous bytes in the random or the scalar
    let mut bases: Vec<(String, Vec<u8>, u64)> = seeds.iter().map(|s| (s.to_string(), vec![], *s)).collect();
    for v in [0u8, 0xff, 0x80] {
        bases.push((format!("random-{:02x}", v), vec![v; 32], 40));
        for at in if th { (0..64).collect() } else { vec![0usize, 31, 32, 63] } {
            let mut b = stream(&[], 41, 64);
            b[at] = v;
            bases.push((format!("byte-{}-{:02x}", at, v), b, 141));
        }
        for at in (if th { 0..16 } else { 0..0 }).chain([0, 7, 8, 15]) {
            let mut b = stream(&[], 42, 64);
            b[4 * at..4 * at + 4].fill(v);
            bases.push((format!("word-{}-{:02x}", at, v), b, 142));
        }
    }
    for (seed, first, from) in &bases {
        let base = Mutex::new(None);
        c.case(&format!("base/{}", seed), || {
            let (cr, sh, n) = connect(first.clone(), *from)?;
            if n < 64 {
                return Err(format!("only {} random bytes were drawn for a 256-bit random and a 256-bit scalar", n));
            }
            let again = connect(first.clone(), *from)?;
            if again != (cr, sh.clone(), n) {
                return Ok("another source of randomness beside the generator".into());
            }
            let mut rev = cr;
            rev.reverse();
            for (x, what) in [(cr, "the client random"), (rev, "the reversed client random")] {
                if public_of(&x) == sh {
                    return Err(format!("the private scalar is {}", what));
                }
            }
            *base.lock().unwrap() = Some((cr, sh, n));
            Ok("deterministic in the generator".into())
        });
        let b = base.lock().unwrap().clone();
        if let Some((cr, sh, n)) = b {
            let bytes = stream(first, *from, n as usize);
            let bits = (8 * n as usize).min(if th { 4096 } else { 1024 });
            type Row = (usize, [u8; 32], Vec<u8>);
            let rows: Mutex<Vec<Row>> = Mutex::new(vec![]);
            c.par(bits, |i| {
                c.case(&format!("flip/{}/{}", seed, i), || {
                    let mut b = bytes.clone();
                    b[i / 8] ^= 1 << (i % 8);
                    let (r, s, _) = connect(b, *from)?;
                    let o = match (r != cr, s != sh) {
                        (true, true) => "moves both",
                        (true, false) => "moves the client random",
                        (false, true) => "moves the key share",
                        (false, false) => "moves neither",
                    };
                    rows.lock().unwrap().push((i, r, s));
                    Ok(o.into())
                });
            });
            let rows = rows.into_inner().unwrap();
            if !c.stopped() && !c.replaying() {
                c.case(&format!("coverage/{}", seed), || {
                    let mut moved = [0u8; 32];
                    let mut shares = BTreeSet::new();
                    for (_, r, s) in &rows {
                        for k in 0..32 {
                            moved[k] |= r[k] ^ cr[k];
                        }
                        if *r == cr && *s != sh {
                            shares.insert(s.clone());
                        }
                    }
                    if let Some(k) = moved.iter().position(|&m| m != 0xff) {
                        return Err(format!("bits {:#010b} of byte {} of the client random follow no generator bit", !moved[k], k));
                    }
                    if shares.len() < 256 {
                        return Err(format!(
                            "only {} generator bits move the private scalar to a value of its own while leaving the (public) client random alone: fewer than 256 bits of entropy",
                            shares.len()
                        ));
                    }
                    Ok("256 bits of random and 256 of scalar follow the generator".into())
                });
            }
        }
    }
    c.bound(format!("every generator bit drawn in a handshake (up to {}), from {} base streams", if th { 4096 } else { 1024 }, bases.len()));

    // (b)
    let e = curve();
    let one = BigUint::from(1u32);
    let top = (&one << 256u32) - 1u32;
    let mut sp: Vec<(&str, BigUint)> = vec![
        ("0", BigUint::from(0u32)),
        ("1", one.clone()),
        ("2", BigUint::from(2u32)),
        ("n-1", &e.n - 1u32),
        ("n", e.n.clone()),
        ("n+1", &e.n + 1u32),
        ("p-1", &e.p - 1u32),
        ("p", e.p.clone()),
        ("p+1", &e.p + 1u32),
        ("max", top.clone()),
    ];
    if th {
        sp.extend([
            ("n-2", &e.n - 2u32),
            ("n+2", &e.n + 2u32),
            ("n/2", &e.n >> 1u32),
            ("n/2+1", (&e.n >> 1u32) + 1u32),
            ("2n mod 2^256", (&e.n << 1u32) & &top),
            ("max-1", &top - 1u32),
            ("2^255", &one << 255u32),
            ("2^224", &one << 224u32),
            ("2^32", &one << 32u32),
            ("2^64-1", (&one << 64u32) - 1u32),
        ]);
    }
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..3 {
        let mut nx = vec![];
        for s in &last {
            for i in 0..sp.len() {
                let mut t = s.clone();
                t.push(i);
                nx.push(t);
            }
        }
        seqs.extend(nx.clone());
        last = nx;
    }
    seqs.remove(0);
    // byte order of the scalar in the stream and how many bytes precede it
    for (place, lead) in [("scalar", 32usize), ("start", 0)] {
        for order in ["le", "be", "words"] {
            if order == "words" && !th {
                continue;
            }
            c.par(seqs.len(), |i| {
                let s = &seqs[i];
                if place == "start" && s.len() > 2 && !th {
                    return;
                }
                let names: Vec<&str> = s.iter().map(|&k| sp[k].0).collect();
                c.case(&format!("draw/{}/{}/{}", place, order, names.join(",")), || {
                    let mut b = stream(&[], 77, lead);
                    for &k in s {
                        let mut v = be32(&sp[k].1).to_vec();
                        match order {
                            "le" => v.reverse(),
                            // big-endian words in little-endian order and the like
                            "words" => {
                                for w in v.chunks_mut(4) {
                                    w.reverse()
                                }
                            }
                            _ => {}
                        }
                        b.extend(v);
                    }
                    let (_, sh, n) = connect(b, 5)?;
                    let _ = sh;
                    Ok(format!("valid share after {} drawn bytes", n))
                });
            });
        }
    }
    c.bound(format!("{} sequences of up to 3 special candidates out of {}", seqs.len(), sp.len()));
    c.par(256, |v| {
        c.case(&format!("flat/{}", v), || {
            // a long run of one byte value, then an ordinary stream
            for len in [32usize, 64, 96, 160] {
                connect(vec![v as u8; len], 9)?;
            }
            c.add_traces(3);
            Ok("valid share".into())
        });
    });
    c.bound("every byte value repeated over the first 32, 64, 96 and 160 generator bytes");

    // the same candidate again and again: what an implementation may do about a generator that is stuck
    let top_runs = if th { 400 } else { 100 };
    c.par(sp.len(), |i| {
        for order in ["le", "be"] {
            for n in (4..=top_runs).chain([1000, 5000]) {
                if n > 1000 && !th {
                    continue;
                }
                c.case(&format!("stuck/{}/{}/{}", sp[i].0, order, n), || {
                    let mut v = be32(&sp[i].1).to_vec();
                    if order == "le" {
                        v.reverse();
                    }
                    let mut b = stream(&[], 77, 32);
                    for _ in 0..n {
                        b.extend(&v);
                    }
                    let run = conforming(default_cfg(), vec![], eof);
                    match run.connect_scripted(b, 5) {
                        // giving up on such a generator is fine, as long as nothing bad is sent
                        Err(e) if n >= 8 => {
                            run.sync();
                            if run.server.borrow().client_point.is_some() {
                                return Err(format!("the handshake with a conforming server fails: {:?} {}", e.kind, e.desc));
                            }
                            Ok("given up".into())
                        }
                        r => look(&run, r.map(|_| ()).map_err(|e| format!("{:?} {}", e.kind, e.desc))).map(|_| "valid share".into()),
                    }
                });
            }
        }
    });
    c.bound(format!("each special candidate 4..={} and 1000 times in a row", top_runs));

    // (c)
    let depth = if th { 6 } else { 4 };
    c.par(1 << (2 * depth), |m| {
        c.case(&format!("fresh/{:0w$b}", m, w = 2 * depth), || {
            let mut rs = BTreeSet::new();
            let mut ss = BTreeSet::new();
            getrandom::script(Vec::new(), 40);
            for k in 0..depth {
                // how this connection ends
                let how = m >> (2 * k) & 3;
                let (run, _q, _e) = match how {
                    // peer falls silent after the key exchange, sends a bad share, or plays on
                    1 => {
                        let mut cfg = default_cfg();
                        cfg.sig = vec![7; 3];
                        let mut st = 0;
                        let r = world(cfg, move |s| {
                            st += 1;
                            if st == 1 {
                                return Feed::Bytes(recs(HS, &s.cfg.flight(), 1 << 14));
                            }
                            Feed::Eof
                        });
                        (r, (), ())
                    }
                    2 => {
                        let r = world(default_cfg(), move |_| Feed::Eof);
                        (r, (), ())
                    }
                    _ => (conforming(default_cfg(), vec![], eof), (), ()),
                };
                let r = run.connect_as_is();
                if how == 3 {
                    if let Ok(mut c) = r {
                        let _ = std::io::Write::write(&mut c, &pattern(k as u8, 40));
                        let _ = c.close();
                    }
                }
                run.sync();
                let s = run.server.borrow();
                if let Some(cr) = s.client_random {
                    if !rs.insert(cr) {
                        return Err(format!("connection {} repeats the client random of an earlier one", k));
                    }
                } else {
                    return Err("no ClientHello".into());
                }
                if let Some(p) = &s.client_point {
                    if !ss.insert(p.clone()) {
                        return Err(format!("connection {} repeats the key share of an earlier one", k));
                    }
                } else if how != 2 {
                    return Err("no key share".into());
                }
            }
            Ok("all fresh".into())
        });
    });
    c.bound(format!("all sequences of {} consecutive connections, each completed, completed with traffic and closed, abandoned after the key exchange or refused at once", depth));
    c.finish()
}
