//! C24: a transport that ends or fails at any byte is reported and never turned into data.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug)]
enum Hs {
    ReadEnd(Option<ErrorKind>),
    ReadOnce(ErrorKind),
    Write(WFault, bool),
    Flush(ErrorKind, bool),
}

/// the handshake with a fault at one offset
fn handshake(cfg: Cfg, at: u64, f: Hs, max_rec: usize, chunk: usize) -> Result<String, String> {
    let mut st = 0;
    let run = world(cfg, move |s| {
        st += 1;
        match st {
            1 => Feed::Bytes(recs(HS, &s.cfg.flight(), max_rec)),
            2 => match s.finished() {
                Some(m) => {
                    let mut o = rec(CCS, &[1]);
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                None => {
                    // half of the client's messages are missing: the server can only hang up
                    Feed::Eof
                }
            },
            _ => Feed::Eof,
        }
    });
    {
        let mut w = run.world.borrow_mut();
        w.rp.max = chunk;
        w.wp.max = chunk;
        match f {
            Hs::ReadEnd(k) => w.rp.end_at = Some((at, k)),
            Hs::ReadOnce(k) => w.rp.err_once = vec![(at, k)],
            Hs::Write(k, perm) => w.wp.fault_at = vec![(at, k, perm)],
            Hs::Flush(k, perm) => {
                w.flush_fault_at = Some(at);
                w.flush_fault = k;
                w.flush_faults = if perm { u64::MAX } else { 1 };
            }
        }
    }
    match run.connect() {
        Ok(_) => Err("the transport failed during the handshake and the constructor returns success".into()),
        Err(e) if kind(&e) == "IoFailure" => Ok(format!("{:?}", f).split('(').next().unwrap().to_string() + " reported"),
        Err(e) => Err(format!("the transport failed and the handshake reports {:?} ({}) instead of an I/O error", e.kind, e.desc)),
    }
}

fn measure(cfg: Cfg) -> (u64, u64) {
    let (run, _q, _e) = scripted_peer(cfg, eof);
    let c = run.connect().expect("HARNESS plain handshake");
    drop(c);
    let w = run.world.borrow();
    (w.delivered, w.out.len() as u64)
}

/// Data in records of these sizes; the stream ends or fails `cut` bytes after the handshake.
fn reading(layout: &[usize], cut: usize, end: Option<ErrorKind>, once: bool, size: usize, chunk: usize) -> Result<String, String> {
    let mut e = establish(default_cfg(), eof)?;
    let mut stream = Vec::new();
    let mut full = Vec::new();
    let mut sent = Vec::new();
    for (i, &n) in layout.iter().enumerate() {
        let d = pattern(i as u8 + 1, n);
        let r = e.seal(APP, &d);
        stream.extend(r);
        sent.extend(&d);
        if stream.len() <= cut {
            full.extend(&d);
        }
    }
    if cut > stream.len() {
        return Ok("beyond the end".into());
    }
    let base = {
        let mut w = e.run.world.borrow_mut();
        let b = w.delivered;
        w.rp.max = chunk;
        if once {
            w.rp.err_once = vec![(b + cut as u64, end.unwrap())];
        } else {
            w.rp.end_at = Some((b + cut as u64, end));
        }
        b
    };
    e.push(stream);
    let mut got = Vec::new();
    let mut zeros = 0;
    let mut buf = vec![0u8; size];
    for _ in 0..sent.len() + 8 {
        let short = match e.c.read(&mut buf) {
            Ok(n) if n <= size => {
                got.extend_from_slice(&buf[..n]);
                // a read may return less than the buffer holds without being at the end
                n == 0
            }
            Ok(_) => return Err("read returned more than the buffer holds".into()),
            Err(_) => true,
        };
        if !once && got.len() > full.len() {
            return Err(format!("{} bytes delivered; complete records carry {}", got.len(), full.len()));
        }
        if once && !sent.starts_with(&got) {
            return Err("data delivered that the server did not send".into());
        }
        if short && zeros == 0 {
            // after a passing failure between two records the stream goes on
            if got != full && !(once && got == sent) {
                return Err(format!("the end is reported after {} bytes; {} had arrived in complete records", got.len(), full.len()));
            }
        }
        zeros += short as u32;
        if zeros >= 4 {
            break;
        }
    }
    if zeros == 0 {
        return Err("the end is never reported".into());
    }
    if !once && got != full {
        return Err("delivered data is not the data of the complete records".into());
    }
    let _ = base;
    Ok(if once { "passing error: prefix".into() } else { format!("end after {} records", if full.len() == sent.len() { "all" } else { "some" }) })
}

/// A record whose last `k` bytes are ones the client may have at hand (zeros, or what the record before has at
/// that place), cut short by up to `k` bytes: it has not arrived, whatever its missing bytes are.
fn tail(n: usize, k: usize, before: bool, end: Option<ErrorKind>, size: usize) -> Result<String, String> {
    for missing in 1..=k {
        let mut e = establish(default_cfg(), eof)?;
        let mut stream = Vec::new();
        let mut full = Vec::new();
        let mut like = vec![0u8; k];
        if before {
            full = pattern(9, n);
            stream = e.seal(APP, &full);
            like = stream[stream.len() - k..].to_vec();
        }
        let r = {
            let s = e.run.server.borrow();
            let keys = s.keys.as_ref().ok_or("HARNESS: no keys")?;
            let mut t = 0u32;
            loop {
                let mut d = pattern(3, n);
                let l = n.min(4);
                d[..l].copy_from_slice(&t.to_le_bytes()[..l]);
                let r = seal(&keys.sw, &keys.siv, s.seq, APP, &d);
                if r.ends_with(&like) {
                    break r;
                }
                t += 1;
                if t == 1 << 22 || (l < 4 && t >> (8 * l) > 0) {
                    return Ok("no such record".into());
                }
            }
        };
        stream.extend(&r[..r.len() - missing]);
        {
            let mut w = e.run.world.borrow_mut();
            w.rp.end_at = Some((w.delivered + stream.len() as u64, end));
        }
        e.push(stream);
        let mut got = vec![];
        let mut buf = vec![0u8; size];
        for _ in 0..n + 8 {
            match e.c.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(k) => got.extend_from_slice(&buf[..k]),
            }
        }
        if got != full {
            return Err(format!("a record without its last {} bytes: {} bytes delivered, {} had arrived in complete records", missing, got.len(), full.len()));
        }
    }
    Ok("cut record not delivered".into())
}

/// Writes of these sizes (None = close); the transport fails at offset `at` after the handshake.
fn writing(plan: &[Option<usize>], at: usize, f: WFault, perm: bool, chunk: usize) -> Result<String, String> {
    let mut e = establish(default_cfg(), stall)?;
    let base = e.out_len();
    {
        let mut w = e.run.world.borrow_mut();
        w.wp.max = chunk;
        w.wp.fault_at = vec![((base + at) as u64, f, perm)];
    }
    let mut accepted = Vec::new();
    let mut failed = false;
    for (i, p) in plan.iter().enumerate() {
        let data = p.map(|n| pattern(i as u8, n));
        let mut pos = 0;
        // a write may take less than it was given: the rest is handed in again
        loop {
            let before = e.run.world.borrow().faults.len();
            let r = match &data {
                Some(d) => e.c.write(&d[pos..]).map_err(|e| e.to_string()),
                None => e.c.close().map(|_| 0).map_err(|e| e.to_string()),
            };
            let faulted = e.run.world.borrow().faults.len() > before;
            match (r, faulted) {
                (Ok(_), true) => return Err(format!("the transport failed during operation {} and the client reports success", i)),
                (Err(x), false) => {
                    if !failed {
                        return Err(format!("operation {} fails though the transport did not: {}", i, x));
                    }
                    break;
                }
                (Ok(k), false) => {
                    let Some(d) = &data else { break };
                    if k > d.len() - pos || (k == 0 && pos < d.len()) {
                        if failed {
                            break;
                        }
                        return Err(format!("write of {} bytes gives Ok({})", d.len() - pos, k));
                    }
                    if !failed {
                        accepted.extend(&d[pos..pos + k]);
                    }
                    pos += k;
                    if pos == d.len() {
                        break;
                    }
                }
                (Err(_), true) => {
                    failed = true;
                    break;
                }
            }
        }
    }
    // what was reported as written before the failure has been accepted whole
    let out = e.run.world.borrow().out.clone();
    let upto = if failed { base + at } else { out.len() };
    let mut sv = e.run.server.borrow_mut();
    sv.absorb(&out[..upto]);
    if !sv.problems.is_empty() {
        return Err(sv.problems.join("; "));
    }
    if !sv.app_data().starts_with(&accepted) {
        return Err("a write reported as done has not been accepted whole by the transport".into());
    }
    Ok(if failed { "failure reported".into() } else { "fault not reached".into() })
}

fn main() {
    let c = Ctx::new("C24", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every offset of either direction of the handshake and of data sessions x every fault (orderly end, 22 error kinds, a zero-length write; for good or passing) is executed. \
         Oracle: the handshake returns an I/O error; reads deliver exactly the complete records and then the end; an operation during which the transport failed reports an error.",
    );
    let (rd, wr) = measure(default_cfg());
    let mut jobs: Vec<(u64, Hs, usize, usize)> = vec![];
    for (mr, chunk) in [(1 << 14, 0usize), (1 << 14, 1), (40, 0), (7, 0)] {
        // smaller records make a longer stream
        let flight = default_cfg().flight().len();
        let extra = ((flight + mr - 1) / mr - 1) * 5;
        for at in 0..rd + extra as u64 {
            jobs.push((at, Hs::ReadEnd(None), mr, chunk));
            if th || (mr == 1 << 14) {
                for &k in &KINDS[..if th || chunk == 0 { KINDS.len() } else { 4 }] {
                    jobs.push((at, Hs::ReadEnd(Some(k)), mr, chunk));
                    jobs.push((at, Hs::ReadOnce(k), mr, chunk));
                }
            }
        }
    }
    for at in 0..wr {
        for chunk in [0, 1] {
            for perm in [true, false] {
                jobs.push((at, Hs::Write(WFault::Zero, perm), 1 << 14, chunk));
                for &k in &KINDS[..if th || chunk == 0 { KINDS.len() } else { 4 }] {
                    jobs.push((at, Hs::Write(WFault::Err(k), perm), 1 << 14, chunk));
                }
            }
        }
        for k in KINDS {
            for perm in [true, false] {
                jobs.push((at, Hs::Flush(k, perm), 1 << 14, 0));
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (at, f, mr, ch) = jobs[i];
        c.case(&format!("hs/{:?}/{}/{}/{}", f, at, mr, ch), || handshake(default_cfg(), at, f, mr, ch));
    });
    let all = shapes();
    c.par(all.len(), |i| {
        let (n, g) = &all[i];
        let (rd, wr) = measure(g.clone());
        for at in (0..rd).filter(|&at| rd < 900 || at < 200 || at + 200 > rd || at % 997 < 2) {
            for f in [Hs::ReadEnd(None), Hs::ReadEnd(Some(ErrorKind::ConnectionReset)), Hs::ReadOnce(ErrorKind::WouldBlock)] {
                c.case(&format!("hs/{}/{:?}/{}", n, f, at), || handshake(g.clone(), at, f, 1 << 14, 0));
            }
        }
        for at in 0..wr {
            for f in [Hs::Write(WFault::Zero, false), Hs::Write(WFault::Err(ErrorKind::WouldBlock), false), Hs::Write(WFault::Err(ErrorKind::BrokenPipe), true), Hs::Flush(ErrorKind::TimedOut, false)] {
                c.case(&format!("hs/{}/{:?}/{}", n, f, at), || handshake(g.clone(), at, f, 1 << 14, 0));
            }
        }
    });
    c.bound(format!("{} further shapes of servers: every offset of both directions (of long flights: near the ends) x 7 faults", all.len()));
    c.bound(format!("handshake: each of {} bytes read and {} written x end/22 error kinds/zero write, permanent and passing, 4 packings: {} executions", rd, wr, jobs.len()));

    // reading
    let sizes: &[usize] = if th { &[0, 1, 2, 7, 40] } else { &[0, 1, 9] };
    let mut layouts: Vec<Vec<usize>> = vec![];
    for &a in sizes {
        layouts.push(vec![a]);
        for &b in sizes {
            layouts.push(vec![a, b]);
            for &d in sizes {
                if th || a + b + d > 9 {
                    layouts.push(vec![a, b, d]);
                }
            }
        }
    }
    let mut jobs = vec![];
    for l in &layouts {
        let total: usize = l.iter().map(|n| n + 21).sum();
        for cut in 0..=total {
            let long = l.len() == 3;
            for size in if long { vec![6] } else { vec![1, 6, 64] } {
                for chunk in [0, 1] {
                    jobs.push((l.clone(), cut, None, false, size, chunk));
                    if chunk == 0 {
                        jobs.push((l.clone(), cut, Some(ErrorKind::ConnectionReset), false, size, chunk));
                        jobs.push((l.clone(), cut, Some(ErrorKind::WouldBlock), true, size, chunk));
                    }
                    // every kind on the short ones
                    if !th && chunk == 0 && l.len() == 1 && size == 6 {
                        for k in KINDS {
                            jobs.push((l.clone(), cut, Some(k), false, size, chunk));
                            jobs.push((l.clone(), cut, Some(k), true, size, chunk));
                        }
                    }
                    if th {
                        for k in KINDS {
                            jobs.push((l.clone(), cut, Some(k), false, size, chunk));
                            jobs.push((l.clone(), cut, Some(k), true, size, chunk));
                        }
                    }
                }
            }
        }
    }
    // large records around their ends
    for cut in [0usize, 5, 6, 16384, 16388, 16404, 16405, 16406, 16410, 32788, 32809, 32810] {
        for size in [100, 16384, 40000] {
            jobs.push((vec![16384, 16384], cut, None, false, size, 0));
            jobs.push((vec![16384, 16384], cut, Some(ErrorKind::TimedOut), false, size, 1000));
        }
    }
    c.par(jobs.len(), |i| {
        let (l, cut, k, once, size, chunk) = &jobs[i];
        c.case(&format!("read/{:?}/{}/{:?}/{}/{}/{}", l, cut, k, once, size, chunk), || reading(l, *cut, *k, *once, *size, *chunk));
    });
    c.bound(format!("reading: {} record layouts x every cut offset x faults x read sizes: {} executions", layouts.len(), jobs.len()));

    // records whose missing bytes can be guessed
    let lens: Vec<usize> = if th { (1..=300).chain([1000, 1448, 4096, 16384]).collect() } else { (1..=80).chain([100, 128, 200, 255, 256, 300, 1000, 16384]).collect() };
    c.par(lens.len(), |i| {
        let n = lens[i];
        for k in if n <= 300 { 1..=2 } else { 1..=1usize } {
            for before in [false, true] {
                for (j, end) in [None, Some(ErrorKind::ConnectionReset), Some(ErrorKind::UnexpectedEof), Some(ErrorKind::WouldBlock)].into_iter().enumerate() {
                    if k == 2 && j > 0 && (!th || n % 16 > 0) {
                        continue;
                    }
                    c.case(&format!("tail/{}/{}/{}/{:?}", n, k, before, end), || tail(n, k, before, end, n + 10));
                }
            }
        }
    });
    c.bound(format!("records of {} lengths whose last one or two bytes are zeros or those of the record before, without these", lens.len()));

    // writing
    let mut plans: Vec<Vec<Option<usize>>> = vec![];
    let ws = [Some(0), Some(1), Some(20), None];
    for a in ws {
        plans.push(vec![a]);
        for b in ws {
            plans.push(vec![a, b]);
            if th {
                for d in ws {
                    plans.push(vec![a, b, d]);
                }
            }
        }
    }
    let mut jobs = vec![];
    for p in &plans {
        let total: usize = p.iter().map(|x| x.map_or(23, |n| if n == 0 { 0 } else { n + 21 })).sum();
        for at in 0..total {
            for perm in [true, false] {
                for chunk in [0, 1] {
                    jobs.push((p.clone(), at, WFault::Zero, perm, chunk));
                    for k in if th || (p.len() == 1 && chunk == 0) { &KINDS[..] } else { &KINDS[1..3] } {
                        jobs.push((p.clone(), at, WFault::Err(*k), perm, chunk));
                    }
                }
            }
        }
    }
    for at in [0usize, 1, 5, 16383, 16404, 16405, 16406, 16410, 32809, 32810, 32811, 32815, 33000] {
        for f in [WFault::Zero, WFault::Err(ErrorKind::WouldBlock), WFault::Err(ErrorKind::BrokenPipe)] {
            for perm in [true, false] {
                jobs.push((vec![Some(40000), Some(1)], at, f, perm, 0));
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (p, at, f, perm, ch) = &jobs[i];
        c.case(&format!("write/{:?}/{}/{:?}/{}/{}", p, at, f, perm, ch), || writing(p, *at, *f, *perm, *ch));
    });
    c.bound(format!("writing: {} plans of writes and close x every offset x faults: {} executions", plans.len(), jobs.len()));
    c.finish()
}
