//! C07: the client's stream after ChangeCipherSpec, opened record by record by the reference peer.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use mc::seq::{alphabet, play_with, synonym, Seen, Sym, Tape, LEGAL};
use std::io::{IoSlice, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    W(usize),
    All(usize),
    V2(usize, usize),
    Fmt,
    R(usize),
    Flush,
    Close,
    /// what the server does next when it is asked for bytes
    SBad,
    SEnd,
    SAlert,
    SHello,
}
use Op::*;

/// A running history and what must have come out of it.
struct Hist {
    e: Est,
    sent: Vec<u8>,
    tag: u8,
    closed: bool,
    checked: usize,
}

impl Hist {
    fn new(seed: u64) -> Result<Hist, String> {
        let e = establish_seed(default_cfg(), stall, seed)?;
        Ok(Hist { e, sent: vec![], tag: 0, closed: false, checked: 0 })
    }
    fn data(&mut self, n: usize) -> Vec<u8> {
        self.tag = self.tag.wrapping_add(1);
        pattern(self.tag, n)
    }
    fn op(&mut self, o: Op) -> Result<(), String> {
        match o {
            W(n) => {
                let d = self.data(n);
                let k = self.e.c.write(&d).map_err(|e| format!("write({}) fails: {}", n, e))?;
                if k > n || (n > 0 && k == 0) {
                    return Err(format!("write({}) returned {}", n, k));
                }
                self.sent.extend_from_slice(&d[..k]);
            }
            All(n) => {
                let d = self.data(n);
                self.e.c.write_all(&d).map_err(|e| format!("write_all({}) fails: {}", n, e))?;
                self.sent.extend_from_slice(&d);
            }
            V2(a, b) => {
                let (x, y) = (self.data(a), self.data(b));
                let k = self.e.c.write_vectored(&[IoSlice::new(&x), IoSlice::new(&y)]).map_err(|e| format!("write_vectored fails: {}", e))?;
                let all: Vec<u8> = x.into_iter().chain(y).collect();
                if k > all.len() {
                    return Err(format!("write_vectored({}, {}) returned {}", a, b, k));
                }
                self.sent.extend_from_slice(&all[..k]);
            }
            Fmt => {
                let n = self.tag as u32 + 70;
                write!(self.e.c, "GET /{} HTTP/1.{}\r\n", n, 1).map_err(|e| format!("write! fails: {}", e))?;
                self.sent.extend(format!("GET /{} HTTP/1.{}\r\n", n, 1).into_bytes());
            }
            R(n) => {
                if self.e.idle() {
                    let d = pattern(200, 2 * n);
                    self.e.send(APP, &d);
                }
                // the outcome of reads is the business of other properties
                let _ = self.e.c.read(&mut vec![0; n]);
            }
            Flush => self.e.c.flush().map_err(|e| format!("flush fails: {}", e))?,
            Close => {
                self.e.c.close().map_err(|e| format!("close fails: {:?}", e.kind))?;
                self.closed = true;
            }
            SBad => {
                let mut r = self.e.seal(APP, b"tampered");
                let n = r.len();
                r[n - 1] ^= 1;
                self.e.push(r)
            }
            SEnd => self.e.send(ALERT, &[1, 0]),
            SAlert => self.e.send(ALERT, &[2, 40]),
            SHello => self.e.send(HS, &[0, 0, 0, 0]),
        }
        Ok(())
    }
    /// compare what is on the wire with what was accepted
    fn check(&mut self) -> Result<(), String> {
        self.e.run.sync();
        self.e.run.problems()?;
        let s = self.e.run.server.borrow();
        let w = self.e.run.world.borrow();
        if s.tail_len(&w.out) != 0 {
            return Err(format!("{} bytes at the end of the client's stream are not a whole record", s.tail_len(&w.out)));
        }
        let got = s.app_data();
        if got != self.sent {
            let at = got.iter().zip(&self.sent).position(|(a, b)| a != b).unwrap_or(got.len().min(self.sent.len()));
            return Err(format!("the peer obtains {} bytes where {} were accepted; first difference at {}", got.len(), self.sent.len(), at));
        }
        if self.closed {
            match s.records.last() {
                Some((ALERT, _, p, true)) if p.len() == 2 && p[1] == 0 => {}
                r => return Err(format!("the last record after close() is {:?}", r.map(|r| (r.0, r.2.len(), r.3)))),
            }
        }
        self.checked = s.records.len();
        Ok(())
    }
}

fn run(seq: &[Op], each: bool) -> Result<String, String> {
    let mut h = Hist::new(SEED)?;
    for o in seq {
        h.op(*o)?;
        if each {
            h.check()?;
        }
    }
    h.check()?;
    Ok(format!("{} protected records", h.checked))
}

/// drop what has been looked at, so that long histories stay small
fn forget(h: &mut Hist) -> Result<(), String> {
    h.check()?;
    h.sent.clear();
    let mut s = h.e.run.server.borrow_mut();
    let mut w = h.e.run.world.borrow_mut();
    s.records.clear();
    s.used = 0;
    w.out.clear();
    w.flushed = 0;
    Ok(())
}

/// `n` writes of one byte, of whose records only some are opened
fn skim(h: &mut Hist, n: usize) -> Result<(), String> {
    let d = [0x5a];
    for _ in 0..n {
        match h.e.c.write(&d) {
            Ok(1) => {}
            r => return Err(format!("write(1): {:?}", r.map_err(|e| e.kind()))),
        }
    }
    let mut s = h.e.run.server.borrow_mut();
    let mut w = h.e.run.world.borrow_mut();
    let got = s.skim(&w.out[..w.seen_by_peer()])?;
    if got != n || s.tail_len(&w.out) != 0 {
        return Err(format!("{} bytes written, {} in whole records, {} left over", n, got, s.tail_len(&w.out)));
    }
    s.used = 0;
    w.out.clear();
    w.flushed = 0;
    Ok(())
}

fn main() {
    let c = Ctx::new("C07", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every operation sequence up to the depth is run on an established connection; the reference server opens every record under its own keys with consecutive sequence numbers and \
         recomputed additional data, and the concatenated application plaintext is compared with the bytes the successful writes accepted. All write lengths and a history past 2^24 (thorough: 2^27) records likewise. \
         Handshakes that fail after the client's ChangeCipherSpec: whatever is still sent opens too.",
    );
    // operation sequences
    let set: Vec<Op> = if th {
        vec![W(0), W(1), W(2), W(17), W(16384), W(16385), All(100), All(33000), V2(3, 5), Fmt, R(0), R(1), R(7), Flush, Close, SBad, SEnd, SAlert, SHello]
    } else {
        vec![W(0), W(1), W(17), W(16385), All(100), V2(3, 5), Fmt, R(1), R(7), Flush, Close, SBad, SEnd, SHello]
    };
    let depth = 4;
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    let mut all = vec![];
    for d in 0..depth {
        let mut next = vec![];
        for s in &level {
            for &o in &set {
                let mut t = s.clone();
                t.push(o);
                // nothing is promised after close(): such a sequence is maximal
                if o == Close || d + 1 == depth {
                    all.push(t);
                } else {
                    next.push(t);
                }
            }
        }
        level = next;
    }
    c.par(all.len(), |i| {
        c.case(&format!("ops/{:?}", all[i]), || run(&all[i], true));
    });
    c.bound(format!("all {} maximal sequences (depth {}, or ending in close) over {} operations, checked after every operation", all.len(), depth, set.len()));

    // all lengths
    let mut lens: Vec<usize> = if th { (0..=17000).collect() } else { (0..=700).collect() };
    for k in 1..=5usize {
        for d in 0..=if th { 300 } else { 24 } {
            lens.push(k * 16384 + d);
            lens.push(k * 16384 - d);
        }
    }
    // 2^20 and 2^24: a length kept in fewer bits somewhere
    for m in [1024usize, 2048, 4096, 8192, 65535, 131072, 1 << 20, 1 << 24] {
        if m == 1 << 24 && !th {
            lens.push(m + 1);
            continue;
        }
        for d in 0..=2 {
            lens.push(m + d);
            lens.push(m - d);
        }
    }
    lens.sort();
    lens.dedup();
    let n = lens.len().div_ceil(32);
    c.par(n, |i| {
        let part = &lens[i * 32..((i + 1) * 32).min(lens.len())];
        c.case(&format!("len/{}-{}", part[0], part[part.len() - 1]), || {
            let mut h = Hist::new(SEED)?;
            for (k, &l) in part.iter().enumerate() {
                h.op(if k % 2 == 0 { W(l) } else { All(l) })?;
                forget(&mut h)?;
            }
            c.add_traces(part.len() as u64 - 1);
            Ok("exact".into())
        });
    });
    c.bound(format!("{} write lengths between 0 and {}", lens.len(), lens[lens.len() - 1]));

    // long histories: sequence-number carries, with reads in between
    let bits: u32 = if th { 27 } else { 24 };
    let deep = std::sync::Mutex::new(None);
    c.par(if th { 9 } else { 5 }, |k| {
        if k == 1 {
            c.case_within("stand-in", 600, || {
                let n = mc::report::aux("write", if th { 32 } else { 27 }, 500)?;
                c.add_traces(n.unwrap_or(1) - 1);
                *deep.lock().unwrap() = n;
                Ok("consecutive".into())
            });
            return;
        }
        let k = k - (k > 0) as usize;
        // one history goes far, all others a little past 2^16
        let total = if k == 0 { 1usize << bits } else { 1 << 16 } + 300;
        c.case_within(&format!("long/{}", k), 800, || {
            let mut h = Hist::new(10 + k as u64)?;
            h.e.run.world.borrow_mut().mute = k == 0;
            let mut done = 0usize;
            while done < total {
                let near = (8..=bits).map(|b| 1usize << b).any(|m| done + 600 > m && done < m + 20);
                if k == 0 && !near {
                    skim(&mut h, 500)?;
                    done += 500;
                    continue;
                }
                let step = if near { 1 } else { 500 };
                for _ in 0..step {
                    match k {
                        0 => h.op(W(1))?,
                        1 => h.op(W(done % 3))?,
                        2 => {
                            h.op(W(1 + done % 40))?;
                            if done % 5 == 0 {
                                h.op(R(1))?;
                            }
                        }
                        _ => {
                            h.op(All(1))?;
                            h.op(Flush)?;
                        }
                    }
                    done += 1;
                }
                forget(&mut h)?;
            }
            c.add_traces(total as u64 - 1);
            Ok("every record opens".into())
        });
    });
    c.bound(format!(
        "one history of 2^{} + 300 records: opened and compared one by one around every power of two from 2^8, every 61st one opened and all counted elsewhere; {} histories of 2^16 + 300 with reads, flushes and other lengths, every record opened",
        bits,
        if th { 7 } else { 3 }
    ));

    if !c.replaying() {
        c.bound(match *deep.lock().unwrap() {
            Some(n) => format!("{} records through the record writer with a stand-in cipher that judges every nonce, additional data and header", n),
            None => "the record writer does not take a stand-in cipher in this tree: nothing said about it".into(),
        });
    }

    // from the very first keys: other randoms, other server parameters
    c.par(if th { 400 } else { 48 }, |k| {
        c.case(&format!("seed/{}", k), || {
            let mut h = Hist::new(1000 + k as u64)?;
            for o in [W(5), W(0), All(64), R(2), W(16384), Flush, W(1), Close] {
                h.op(o)?;
                h.check()?;
            }
            Ok("exact".into())
        });
    });

    // a handshake that fails after the client's ChangeCipherSpec
    let alpha = alphabet();
    let mut jobs: Vec<Vec<Sym>> = vec![];
    for n in 4..=6 {
        for &s in &alpha {
            let q: Vec<Sym> = LEGAL[..n.min(LEGAL.len())].to_vec();
            if n < 6 && synonym(&q, s) {
                continue;
            }
            let mut t = q;
            t.push(s);
            jobs.push(t);
        }
    }
    c.par(jobs.len(), |i| {
        c.case(&format!("hs/{:?}", jobs[i]), || {
            let o = play_with(default_cfg(), Tape { seq: jobs[i].clone(), coalesce: false, max_record: 1 << 14, end: eof }, |_| {});
            o.run.sync();
            o.run.problems()?;
            let s = o.run.server.borrow();
            let mut ccs = false;
            for r in &s.records {
                if ccs && !r.3 {
                    return Err("an unprotected record after ChangeCipherSpec".into());
                }
                ccs |= r.0 == CCS;
                if r.0 == APP {
                    return Err("application data nobody wrote".into());
                }
            }
            Ok(match o.seen {
                Seen::Established => "established".into(),
                Seen::Failed(k, _) => format!("failed with {}, all records open", k),
                Seen::WantsMore(k) => format!("ended with {}", k),
            })
        });
    });
    c.bound(format!("{} handshakes continued by every message of the alphabet after the client's ChangeCipherSpec", jobs.len()));
    let _ = eof as fn() -> Feed;
    c.finish()
}
