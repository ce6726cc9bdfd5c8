//! C09: no key/nonce pair protects two different records, whatever the transport does to writes.
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{ErrorKind, Read, Write};

/// ChaCha20 keystream for the record bytes of sequence number `seq` (block 0 is the MAC key).
fn keystream(k: &Keys, seq: u64, n: usize) -> Vec<u8> {
    let zero = vec![0u8; n];
    aead_seal(&k.cw, &nonce(&k.civ, seq), &zero, &[])[..n].to_vec()
}

#[derive(Debug, Clone)]
struct Frag {
    ty: u8,
    /// plaintext prefixes this fragment may stand for, by sequence number; one entry if complete
    seqs: Vec<(u64, Vec<u8>)>,
    complete: bool,
}

fn parse(out: &[u8], faults: &[u64], k: &Keys, data: &[Vec<u8>], fin: &[u8], max_seq: u64) -> Result<Vec<Frag>, String> {
    let mut cuts: Vec<usize> = faults.iter().map(|&x| x as usize).collect();
    cuts.push(out.len());
    cuts.sort();
    cuts.dedup();
    let head = |b: &[u8]| b.len() >= 1 && (20..=23).contains(&b[0]) && (b.len() < 2 || b[1] == 3) && (b.len() < 3 || b[2] == 3);
    let mut frags = Vec::new();
    let mut protected = false;
    let mut carry: Vec<u8> = Vec::new();
    let mut at = 0;
    let mut pieces: Vec<Vec<u8>> = Vec::new();
    for &cut in &cuts {
        let seg = &out[at..cut];
        at = cut;
        if seg.is_empty() {
            continue;
        }
        // does the segment start a new record, or go on with the one the fault cut?
        if !carry.is_empty() && !head(seg) {
            carry.extend_from_slice(seg);
        } else {
            if !carry.is_empty() {
                pieces.push(std::mem::take(&mut carry));
            }
            carry = seg.to_vec();
        }
        let (rs, tail) = split_records(&carry);
        pieces.extend(rs);
        carry = tail;
    }
    if !carry.is_empty() {
        pieces.push(carry);
    }
    for p in pieces {
        let ty = p[0];
        let full = p.len() >= 5 && p.len() == 5 + ((p[3] as usize) << 8 | p[4] as usize);
        if !protected {
            if ty == CCS && full {
                protected = true;
            }
            continue;
        }
        if p.len() <= 5 {
            continue;
        }
        let mut seqs = Vec::new();
        for s in 0..max_seq {
            if full {
                if let Some(pt) = open(&k.cw, &k.civ, s, &p) {
                    seqs.push((s, pt));
                }
                continue;
            }
            let total = (p[3] as usize) << 8 | p[4] as usize;
            let m = (p.len() - 5).min(total.saturating_sub(16));
            let ks = keystream(k, s, m);
            let pt: Vec<u8> = p[5..5 + m].iter().zip(&ks).map(|(a, b)| a ^ b).collect();
            let fits = match ty {
                ALERT => pt.is_empty() || ((pt[0] == 1 || pt[0] == 2) && pt.len() <= 2),
                HS => fin.starts_with(&pt),
                APP => pt.is_empty() || data.iter().any(|d| d.windows(pt.len()).any(|w| w == &pt[..])),
                _ => true,
            };
            if fits && m > 0 {
                seqs.push((s, pt));
            }
        }
        if seqs.is_empty() && full {
            return Err(format!("a complete record of type {} opens under no sequence number", ty));
        }
        if seqs.is_empty() {
            // only tag bytes or nothing identifiable
            continue;
        }
        frags.push(Frag { ty, seqs, complete: full });
    }
    Ok(frags)
}

/// Is there an assignment of sequence numbers under which no two fragments of different plaintext share one?
fn assign(f: &[Frag], i: usize, used: &mut Vec<(u64, u8, Vec<u8>, bool)>) -> bool {
    if i == f.len() {
        return true;
    }
    for (s, pt) in &f[i].seqs {
        let clash = used.iter().any(|(us, uty, upt, uc)| {
            us == s && {
                let n = upt.len().min(pt.len());
                // one may be an incomplete copy of the other
                *uty != f[i].ty || upt[..n] != pt[..n] || (*uc && f[i].complete && upt.len() != pt.len()) || (*uc && pt.len() > upt.len()) || (f[i].complete && upt.len() > pt.len())
            }
        });
        if clash {
            continue;
        }
        used.push((*s, f[i].ty, pt.clone(), f[i].complete));
        if assign(f, i + 1, used) {
            return true;
        }
        used.pop();
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// write this many bytes of this pattern
    W(usize, u8),
    Close,
    Flush,
    Read,
}
use Op::*;

fn data_of(ops: &[Op]) -> Vec<Vec<u8>> {
    ops.iter().filter_map(|o| if let W(n, t) = o { Some(pattern(*t, *n)) } else { None }).collect()
}

fn judge(run: &Run, ops: &[Op], fin: &[u8]) -> Result<usize, String> {
    let w = run.world.borrow();
    let s = run.server.borrow();
    let k = match &s.keys {
        Some(k) => k.clone(),
        None => return Ok(0),
    };
    let f = parse(&w.out, &w.faults, &k, &data_of(ops), fin, 12 + ops.len() as u64 * 4)?;
    if !assign(&f, 0, &mut vec![]) {
        let d: Vec<String> = f.iter().map(|x| format!("type {} seq {:?}{}", x.ty, x.seqs.iter().map(|y| y.0).collect::<Vec<_>>(), if x.complete { "" } else { " (cut)" })).collect();
        return Err(format!("two different records are sealed under one sequence number and reach the transport: {}", d.join(", ")));
    }
    Ok(f.len())
}

fn go(c: &Ctx, ops: &[Op], faults: &[(u64, WFault, bool)]) -> Result<String, String> {
    let mut e = establish(default_cfg(), eof)?;
    e.run.sync();
    let fin = e.run.server.borrow().msgs.get(2).cloned().unwrap_or_default();
    let base = e.out_len() as u64;
    e.run.world.borrow_mut().wp.fault_at = faults.iter().map(|&(o, f, p)| (base + o, f, p)).collect();
    let mut errs = 0;
    for op in ops {
        let r = match op {
            W(n, t) => e.c.write_all(&pattern(*t, *n)).is_err(),
            Close => e.c.close().is_err(),
            Flush => e.c.flush().is_err(),
            Read => {
                e.send(APP, b"x");
                e.c.read(&mut [0; 1]).is_err()
            }
        };
        errs += r as usize;
    }
    let n = judge(&e.run, ops, &fin)?;
    let fired = e.run.world.borrow().faults.len();
    c.add_nontrivial((fired > 0) as u64);
    Ok(format!("{} faults, {} failed calls, {} protected fragments on the wire", fired.min(3), errs.min(4), n.min(9)))
}

fn in_handshake(c: &Ctx, at: u64, f: WFault, perm: bool) -> Result<String, String> {
    let (run, _q, _e) = scripted_peer(default_cfg(), eof);
    run.world.borrow_mut().wp.fault_at = vec![(at, f, perm)];
    let r = run.connect();
    run.sync();
    let fin = run.server.borrow().msgs.get(2).cloned().unwrap_or_default();
    judge(&run, &[], &fin)?;
    c.add_nontrivial(!run.world.borrow().faults.is_empty() as u64);
    if r.is_ok() && !run.world.borrow().faults.is_empty() {
        return Err("the handshake succeeds although a write failed".into());
    }
    Ok(if r.is_ok() { "no fault met".into() } else { "handshake fails on the fault".to_string() })
}

fn main() {
    let c = Ctx::new("C09", "fault_enumeration");
    let th = c.thorough();
    c.rule(
        "A transport write failure (error or zero-length write, once or for good) at every byte offset of what an operation sequence emits, followed by every follow-up \
         sequence. Oracle: all bytes that reached the transport are cut at the faults into records and record fragments; the key-holding reference decrypts each under every \
         possible sequence number; the history is a violation when no assignment exists in which different plaintexts have different numbers. Non-trivial: at least one fault fired.",
    );
    let first = [W(1, 1), W(40, 1), Close, W((1 << 14) + 20, 1)];
    let follow = [W(1, 2), W(40, 3), W(40, 1), W(1, 1), Close, W(100, 5)];
    let mut tails: Vec<Vec<Op>> = vec![vec![]];
    for &a in &follow {
        tails.push(vec![a]);
        for &b in &follow {
            tails.push(vec![a, b]);
            if th {
                for &d in &follow {
                    tails.push(vec![a, b, d]);
                }
            }
        }
    }
    for &a in &follow {
        tails.push(vec![Flush, a]);
        tails.push(vec![Read, a]);
    }
    let kinds = [
        (WFault::Err(ErrorKind::BrokenPipe), false),
        (WFault::Err(ErrorKind::WouldBlock), false),
        (WFault::Zero, false),
        (WFault::Err(ErrorKind::TimedOut), true),
    ];
    let offs = |o: Op| -> Vec<u64> {
        let len = match o {
            W(n, _) if n > 1 << 14 => 0,
            W(n, _) => 5 + n + 16,
            _ => 5 + 2 + 16,
        } as u64;
        if len > 0 {
            (0..=len).collect()
        } else {
            // two records: their borders, byte by byte
            let l1 = 5 + (1 << 14) + 16;
            let mut v: Vec<u64> = (0..12).chain(l1 - 20..l1 + 45).collect();
            v.extend([100, 1000, 8192]);
            v
        }
    };
    c.bound(format!("first operations {:?}, a fault at every byte offset (record borders for the two-record write), 4 kinds of fault, {} follow-up sequences", first, tails.len()));
    let mut cells = Vec::new();
    for &f in &first {
        for o in offs(f) {
            cells.push((f, o));
        }
    }
    let deep = std::sync::Mutex::new(None);
    c.par(cells.len() + 1, |i| {
        if i == 0 {
            // the longest history: nothing fails, and no nonce comes again
            c.case_within("long", 600, || {
                let n = mc::report::aux("fresh", if th { 32 } else { 26 }, 500)?;
                c.add_traces(n.unwrap_or(1) - 1);
                *deep.lock().unwrap() = n;
                Ok("fresh".into())
            });
            return;
        }
        let i = i - 1;
        let (f, o) = cells[i];
        for (j, t) in tails.iter().enumerate() {
            for (ki, k) in kinds.iter().enumerate() {
                // the kinds behave alike: all four for short follow-ups, in rotation for the others
                if t.len() > 1 && !th && (i + j + ki) % 4 != 0 {
                    continue;
                }
                let mut ops = vec![f];
                ops.extend(t);
                c.case(&format!("one/{:?}/{}/{}", ops, o, ki), || go(&c, &ops, &[(o, k.0, k.1)]));
            }
        }
    });
    // ---- every kind of error
    let mut cells = vec![];
    for &f in &[W(3, 1), Close, W((1 << 14) + 20, 1)] {
        for o in offs(f) {
            for k in KINDS {
                cells.push((f, o, k));
            }
        }
    }
    c.par(cells.len(), |i| {
        let (f, o, k) = cells[i];
        for perm in [false, true] {
            for t in [&[W(40, 2)][..], &[W(3, 2)], &[Close], &[W(1, 2), W(40, 3), Close]] {
                let mut ops = vec![f];
                ops.extend(t);
                c.case(&format!("kind/{:?}/{}/{:?}/{}", ops, o, k, perm), || go(&c, &ops, &[(o, WFault::Err(k), perm)]));
            }
        }
    });
    c.bound(format!("{} error kinds, passing and lasting, at every offset of 3 operations, 4 follow-ups", KINDS.len()));
    // ---- two faults
    let step = if th { 1 } else { 3 };
    c.bound(format!("two faults: the first at every {}. byte of a 40-byte write, the second at every {}. byte of what follows, 3 follow-ups", step, step));
    c.par(62, |a| {
        if a % step != 0 && a > 8 {
            return;
        }
        for b in 0..62u64 {
            if b as usize % step != 0 && b > 8 {
                continue;
            }
            for (n, t) in [[W(40, 2), W(40, 3)], [Close, W(40, 3)], [W(40, 2), Close]].iter().enumerate() {
                c.case(&format!("two/{}/{}/{}", a, b, n), || {
                    let ops = [W(40, 1), t[0], t[1]];
                    let a = a as u64;
                    go(&c, &ops, &[(a, WFault::Err(ErrorKind::Other), false), (a + b, WFault::Err(ErrorKind::Other), false)])
                });
            }
        }
    });
    // ---- several operations before the fault
    c.par(150, |o| {
        for (n, ops) in [
            vec![W(10, 1), W(20, 2), W(30, 3), W(20, 4), W(10, 5)],
            vec![W(0, 1), W(20, 2), Read, W(30, 3), Flush, W(20, 4), Close],
            vec![W(3, 1), Close, W(20, 2), Close, W(30, 3)],
        ]
        .iter()
        .enumerate()
        {
            c.case(&format!("mid/{}/{}", n, o), || go(&c, ops, &[(o as u64, WFault::Err(ErrorKind::Other), false)]));
        }
    });
    // ---- in the handshake
    let hl = {
        let e = establish(default_cfg(), eof);
        match e {
            Ok(e) => e.out_len() as u64,
            Err(x) => {
                c.violate("handshake", x);
                0
            }
        }
    };
    c.bound(format!("every byte of the {} the client sends in the handshake x 4 kinds", hl));
    c.par(hl as usize, |o| {
        for (ki, k) in kinds.iter().enumerate() {
            c.case(&format!("handshake/{}/{}", o, ki), || in_handshake(&c, o as u64, k.0, k.1));
        }
    });
    if let Some(n) = *deep.lock().unwrap() {
        c.bound(format!("{} records in a row with a stand-in cipher: every nonce against the first 2^16", n));
    }
    c.finish()
}
