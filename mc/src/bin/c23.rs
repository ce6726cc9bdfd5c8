//! C23: nothing the peer needs stays in a buffered transport.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use mc::seq::{alphabet, judge, play_with, synonym, Seen, Sym, Tape, Verdict, LEGAL};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;

fn buffered(run: &Run, cap: usize) {
    let mut w = run.world.borrow_mut();
    w.buffered = true;
    w.capacity = cap;
}

fn held(run: &Run) -> usize {
    let w = run.world.borrow();
    w.out.len() - w.flushed
}

/// `bursts`: ends of the bursts in which the server sends its four-message flight.
fn handshake(cfg: Cfg, cap: usize, bursts: &[usize], max_rec: usize) -> Result<String, String> {
    let bad: Rc<RefCell<Option<String>>> = Rc::default();
    let bad2 = bad.clone();
    let mut at = 0;
    let mut plan = bursts.to_vec();
    let mut sent_fin = 0;
    let run = world(cfg, move |s| {
        let need = if at < 4 { 1 } else { 3 };
        if s.msgs.len() < need {
            *bad2.borrow_mut() = Some(format!(
                "the client waits for the server, which has seen only {} of the {} client messages it needs: the rest is still in the transport's buffer",
                s.msgs.len(),
                need
            ));
            return Feed::Stall;
        }
        if at < 4 {
            let n = if plan.is_empty() { 4 } else { plan.remove(0) };
            let all = [s.cfg.server_hello(), s.cfg.certificate(), s.cfg.ske(), s.cfg.shd()];
            let mut f = Vec::new();
            while at < n {
                f.extend(all[at].clone());
                at += 1;
            }
            return Feed::Bytes(recs(HS, &f, max_rec));
        }
        sent_fin += 1;
        match sent_fin {
            1 => Feed::Bytes(rec(CCS, &[1])),
            2 => {
                let m = s.finished().unwrap();
                Feed::Bytes(s.seal(HS, &m))
            }
            _ => Feed::Eof,
        }
    });
    buffered(&run, cap);
    let r = run.connect();
    if let Some(b) = bad.borrow().clone() {
        return Err(b);
    }
    run.sync();
    run.problems()?;
    match r {
        Ok(_) => Ok("established".into()),
        Err(e) => Err(format!("the handshake fails over a buffering transport: {:?} {}", e.kind, e.desc)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    W(usize),
    R(usize),
    Flush,
    Close,
}
use Op::*;

/// What follows the three bytes of data the server sends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    End,
    /// close_notify
    Bye,
    /// a HelloRequest and more data
    Hello,
    /// a record nobody sealed
    Forged,
    /// a sealed record that does not belong there
    Odd,
    /// a fatal alert
    Fatal,
}

fn ops(seq: &[Op], cap: usize, tail: Tail) -> Result<String, String> {
    let (run, q, _e) = scripted_peer(default_cfg(), eof);
    buffered(&run, cap);
    let mut c = run.connect().map_err(|e| format!("the handshake fails over a buffering transport: {:?} {}", e.kind, e.desc))?;
    {
        let r = run.server.borrow_mut().seal(APP, &pattern(9, 3));
        q.borrow_mut().push_back(Feed::Bytes(r));
        let mut s = run.server.borrow_mut();
        let mut more = vec![];
        match tail {
            Tail::End => {}
            Tail::Bye => more = s.seal(21, &[1, 0]),
            Tail::Fatal => more = s.seal(21, &[2, 80]),
            Tail::Hello => {
                more = s.seal(HS, &[0; 4]);
                more.extend(s.seal(APP, &pattern(8, 3)));
            }
            Tail::Forged => more = rec(APP, &pattern(7, 40)),
            Tail::Odd => more = s.seal(HS, &hs(14, &[])),
        }
        if !more.is_empty() {
            q.borrow_mut().push_back(Feed::Bytes(more));
        }
    }
    // a failed connection may refuse everything, but what it still says must get out
    let mut failed = false;
    for (i, o) in seq.iter().enumerate() {
        match *o {
            W(n) => {
                // a write may take less than it was given
                let data = pattern(i as u8, n);
                let mut at = 0;
                loop {
                    let k = match c.write(&data[at..]) {
                        Err(_) if failed => break,
                        r => r.map_err(|e| format!("write fails: {}", e))?,
                    };
                    if k > n - at || (k == 0 && at < n) {
                        return Err(format!("write of {} bytes gives Ok({})", n - at, k));
                    }
                    at += k;
                    if at == n {
                        break;
                    }
                }
            }
            R(n) => {
                let before = run.world.borrow().out.len();
                match c.read(&mut vec![0; n]) {
                    Ok(_) => {}
                    Err(_) if [Tail::Forged, Tail::Odd, Tail::Fatal].contains(&tail) => {
                        failed = true;
                        if run.world.borrow().out.len() > before && held(&run) > 0 {
                            return Err(format!("after a failed read (op {}), {} bytes of its last words are still in the transport's buffer", i, held(&run)));
                        }
                    }
                    Err(e) => return Err(format!("read fails: {}", e)),
                }
            }
            Flush => {
                match c.flush() {
                    Err(_) if failed => continue,
                    r => r.map_err(|e| format!("flush fails: {}", e))?,
                }
                if held(&run) > 0 {
                    return Err(format!("after flush() (op {}), {} bytes are still in the transport's buffer", i, held(&run)));
                }
            }
            Close => {
                match c.close() {
                    Err(_) if failed => {}
                    r => r.map_err(|e| format!("close fails: {:?}", e.kind))?,
                }
                if held(&run) > 0 {
                    return Err(format!("after close() (op {}), {} bytes are still in the transport's buffer", i, held(&run)));
                }
            }
        }
    }
    // everything written so far gets out with one flush
    match c.flush() {
        Err(_) if failed => return Ok("failed".into()),
        r => r.map_err(|e| format!("flush fails: {}", e))?,
    }
    if held(&run) > 0 {
        return Err(format!("after the last flush(), {} bytes are still in the transport's buffer", held(&run)));
    }
    run.sync();
    run.problems()?;
    Ok("flushed".into())
}

fn failing(cfg: Cfg, seq: &[Sym], cap: usize) -> Result<String, String> {
    let o = play_with(cfg, Tape { seq: seq.to_vec(), coalesce: false, max_record: 1 << 14, end: eof }, |r| buffered(r, cap));
    match o.seen {
        Seen::Failed(k, _) if k != "IoFailure" => {
            if held(&o.run) > 0 {
                return Err(format!("the handshake failed with {} and {} bytes of its last words are still in the transport's buffer", k, held(&o.run)));
            }
            Ok(format!("flushed after {}", k))
        }
        Seen::Failed(k, _) | Seen::WantsMore(k) => Ok(format!("ends with {}", k)),
        Seen::Established => Ok("established".into()),
    }
}

fn main() {
    let c = Ctx::new("C23", "model_checking");
    let th = c.thorough();
    c.rule(
        "The transport buffers writes (BufWriter semantics with every enumerated capacity, and a buffer only flush() empties); the peer acts only on flushed bytes and the harness \
         records a wait with missing bytes. Every handshake packing, every failing first deviation and every operation sequence is executed. Oracle: no wait with unflushed needs, \
         nothing held back after flush(), close() and a failed handshake's alert; a failing transport flush makes flush() fail.",
    );
    const INF: usize = usize::MAX;
    let caps: Vec<usize> = if th { (1..400).chain([INF]).collect() } else { vec![1, 5, 6, 40, 70, 71, 72, 100, 117, 118, 128, 200, 300, INF] };
    // every way of cutting the four-message flight into bursts
    let mut bursts: Vec<Vec<usize>> = vec![];
    for m in 0..8u32 {
        let mut b = vec![];
        for i in 0..3 {
            if m >> i & 1 == 1 {
                b.push(i as usize + 1);
            }
        }
        b.push(4);
        bursts.push(b);
    }
    let mut jobs = vec![];
    for &cap in &caps {
        for (bi, b) in bursts.iter().enumerate() {
            for mr in [1 << 14, 50, 7] {
                jobs.push((cap, bi, b.clone(), mr));
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (cap, bi, b, mr) = &jobs[i];
        c.case(&format!("hs/{}/{}/{}", cap, bi, mr), || handshake(default_cfg(), *cap, b, *mr));
    });
    let all = shapes();
    c.par(all.len() * bursts.len(), |i| {
        let ((n, g), bi) = (&all[i / bursts.len()], i % bursts.len());
        for cap in [1usize, 60, 100, INF] {
            c.case(&format!("hs/{}/{}/{}", n, cap, bi), || handshake(g.clone(), cap, &bursts[bi], 1 << 14));
        }
    });
    c.bound(format!("{} further shapes of servers x 4 capacities x all burst patterns", all.len()));
    c.bound(format!("{} buffer capacities x all 8 burst patterns of the server flight x 3 record sizes", caps.len()));

    // failing handshakes: the legal prefix, then any first deviation
    let alpha = alphabet();
    let mut jobs = vec![];
    for n in 0..6 {
        for &s in &alpha {
            let mut q: Vec<Sym> = LEGAL[..n].to_vec();
            if synonym(&q, s) {
                continue;
            }
            q.push(s);
            if matches!(judge(&q), Verdict::Refuse | Verdict::RefuseOrWait) {
                for cap in if th { vec![1usize, 5, 9, 60, 90, 200, INF] } else { vec![9, INF] } {
                    jobs.push((q.clone(), cap));
                }
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (q, cap) = &jobs[i];
        c.case(&format!("fail/{:?}/{}", q, cap), || failing(default_cfg(), q, *cap));
    });
    let all = shapes();
    c.par(jobs.len(), |i| {
        let (q, cap) = &jobs[i];
        if *cap == INF {
            for (n, g) in &all {
                c.case(&format!("fail/{}/{:?}", n, q), || failing(g.clone(), q, INF));
            }
        }
    });
    c.bound(format!("{} failing handshakes: every first deviation of the message alphabet after every legal prefix", jobs.len()));

    // operation sequences
    let set = [W(1), W(0), W(20000), R(1), R(3), Flush, Close];
    const TAILS: [Tail; 6] = [Tail::End, Tail::Bye, Tail::Hello, Tail::Forged, Tail::Odd, Tail::Fatal];
    let depth = if th { 5 } else { 4 };
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &seqs {
            for o in set {
                // after close nothing more is promised
                if s.contains(&Close) {
                    continue;
                }
                let mut t = s.clone();
                t.push(o);
                next.push(t);
            }
        }
        all.extend(next.clone());
        seqs = next;
    }
    let ocaps: &[usize] = &[8, 64, INF];
    let mut jobs = vec![];
    for s in &all {
        for &cap in ocaps {
            for t in TAILS {
                // what comes after the data matters to who reads on
                if t == Tail::End || s.iter().filter(|o| matches!(o, R(_))).count() > 1 {
                    jobs.push((s, cap, t));
                }
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (s, cap, t) = jobs[i];
        c.case(&format!("ops/{:?}/{}/{:?}", s, cap, t), || ops(s, cap, t));
    });
    c.bound(format!("{} operation sequences up to depth {} x {} capacities, then x what the server sends next (end, close_notify, HelloRequest, forged or misplaced record, fatal alert): {} executions", all.len(), depth, ocaps.len(), jobs.len()));

    // a transport whose flush fails, the first `skip` times not, with these writes and this flush before
    for k in KINDS {
        for times in [1u64, 2, u64::MAX] {
            for writes in 0..3usize {
                for len in [0usize, 1, 100, 40000] {
                    c.case(&format!("flush-error/{:?}/{}/{}/{}", k, times, writes, len), || {
                        let (run, _q, _e) = scripted_peer(default_cfg(), eof);
                        buffered(&run, INF);
                        let mut c = run.connect().map_err(|e| format!("{:?}", e.kind))?;
                        for _ in 0..writes {
                            c.write(&pattern(1, len)).map_err(|e| format!("write fails: {}", e))?;
                        }
                        {
                            let mut w = run.world.borrow_mut();
                            w.flush_fault_at = Some(0);
                            w.flush_fault = k;
                            w.flush_faults = times;
                        }
                        // a write may flush as well, and then it is the one to report the failure
                        let r = if writes > 0 { c.write(b"x").map(|_| ()) } else { Ok(()) };
                        let left = || run.world.borrow().flush_faults;
                        if r.is_err() {
                            return Ok("flush error reported by the write".into());
                        }
                        if left() < times {
                            return Err("the transport's flush fails and the write that called it reports success".into());
                        }
                        match c.flush() {
                            Ok(()) if left() < times => Err(format!("the transport's flush fails ({:?}) and flush() reports success", k)),
                            Ok(()) if held(&run) > 0 => Err("flush() reports success and never flushes the transport".into()),
                            Ok(()) => Ok("nothing to flush".into()),
                            Err(_) => Ok("flush error reported".into()),
                        }
                    });
                }
            }
        }
    }
    c.bound("a failing flush: 22 error kinds x once, twice, always x 0..2 writes before x 4 lengths");
    c.finish()
}
