//! C11: record sizes against read sizes.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{BufRead, BufReader, IoSliceMut, Read, Write};
use std::rc::Rc;

/// What the peer hands out, one record per wait.
#[derive(Default)]
struct Plan {
    items: VecDeque<(u8, Vec<u8>)>,
    /// when nothing is planned: one-byte records for ever (true), or the end
    filler: bool,
    /// application bytes handed out so far
    given: Vec<u8>,
    pulls: u64,
    ctr: u8,
}

struct Live {
    c: Client,
    run: Run,
    plan: Rc<RefCell<Plan>>,
    taken: usize,
}

fn live(end: fn() -> Feed, seed: u64) -> Result<Live, String> {
    let plan: Rc<RefCell<Plan>> = Rc::new(RefCell::new(Plan { filler: true, ..Plan::default() }));
    let p2 = plan.clone();
    let mut st = 0;
    let run = world(default_cfg(), move |s| {
        if st == 0 {
            st = 1;
            let f = s.cfg.flight();
            return Feed::Bytes(recs(HS, &f, 1 << 14));
        }
        if st == 1 {
            return match s.finished() {
                None => Feed::Stall,
                Some(m) => {
                    st = 2;
                    let mut f = rec(CCS, &[1]);
                    f.extend(s.seal(HS, &m));
                    Feed::Bytes(f)
                }
            };
        }
        let mut p = p2.borrow_mut();
        p.pulls += 1;
        match p.items.pop_front() {
            Some((t, b)) => {
                if t == APP {
                    p.given.extend_from_slice(&b);
                }
                Feed::Bytes(s.seal(t, &b))
            }
            None if p.filler => {
                p.ctr = p.ctr.wrapping_add(37);
                let b = [p.ctr];
                p.given.push(b[0]);
                Feed::Bytes(s.seal(APP, &b))
            }
            None => end(),
        }
    });
    let c = run.connect_scripted(Vec::new(), seed).map_err(|e| format!("the plain conforming handshake fails: {:?} {}", e.kind, e.desc))?;
    Ok(Live { c, run, plan, taken: 0 })
}

impl Live {
    fn pending(&self) -> usize {
        self.plan.borrow().given.len() - self.taken
    }
    /// one read on a stream that has not ended
    fn read(&mut self, n: usize) -> Result<usize, String> {
        let have = self.pending();
        let pulls = self.plan.borrow().pulls;
        let mut buf = vec![0u8; n];
        let k = self.c.read(&mut buf).map_err(|e| format!("read({}) fails: {}", n, e))?;
        if k > n {
            return Err(format!("read({}) returned {}", n, k));
        }
        let p = self.plan.borrow();
        if have >= n && p.pulls != pulls {
            return Err(format!("read({}) waited for the transport although {} bytes had already arrived", n, have));
        }
        if n > 0 && k == 0 {
            return Err(format!("read({}) returned 0 although the stream has not ended", n));
        }
        let want = &p.given[self.taken..];
        if k > want.len() || buf[..k] != want[..k] {
            return Err(format!("read({}) returned {:02x?}, the server's next bytes are {:02x?}", n, &buf[..k.min(64)], &want[..want.len().min(64)]));
        }
        drop(p);
        self.taken += k;
        Ok(k)
    }
    fn settle(&mut self) -> Result<(), String> {
        let mut guard = 0;
        while self.pending() > 0 {
            let n = self.pending();
            self.read(n)?;
            guard += 1;
            if guard > 100_000 {
                return Err("reads make no progress".into());
            }
        }
        let mut p = self.plan.borrow_mut();
        // items nobody asked for yet are dropped: they were not sent
        p.items.clear();
        p.given.clear();
        drop(p);
        self.taken = 0;
        Ok(())
    }
}

/// gap fillers: what may stand between two data records
fn gaps() -> Vec<Vec<(u8, Vec<u8>)>> {
    vec![vec![], vec![(APP, vec![])], vec![(HS, vec![0, 0, 0, 0])], vec![(APP, vec![]), (APP, vec![])], vec![(HS, vec![0, 0, 0, 0]), (APP, vec![])]]
}

/// all ways of cutting `len` bytes into records, with every gap filler in every gap
fn compositions(len: usize, ngaps: usize) -> Vec<Vec<(u8, Vec<u8>)>> {
    let g = gaps();
    let data = pattern(len as u8, len);
    let mut out = vec![];
    for mask in 0..1u32 << (len - 1) {
        let mut parts = vec![];
        let mut at = 0;
        for i in 1..=len {
            if i == len || mask >> (i - 1) & 1 == 1 {
                parts.push(data[at..i].to_vec());
                at = i;
            }
        }
        let k = parts.len() + 1;
        for m in 0..ngaps.pow(k as u32) {
            let mut x = m;
            let mut v = vec![];
            for (i, p) in parts.iter().enumerate() {
                v.extend(g[x % ngaps].clone());
                x /= ngaps;
                v.push((APP, p.clone()));
                if i + 1 == parts.len() {
                    v.extend(g[x % ngaps].clone());
                }
            }
            out.push(v);
        }
    }
    out
}

fn show(v: &[(u8, Vec<u8>)]) -> String {
    v.iter().map(|(t, b)| if *t == HS { "h".into() } else { b.len().to_string() }).collect::<Vec<_>>().join(".")
}

fn main() {
    let c = Ctx::new("C11", "model_checking");
    let th = c.thorough();
    c.rule(
        "The server hands out one record each time the client waits. For every way of cutting a short stream into records, with empty records and hello requests in every gap, every sequence of read sizes is run; \
         sizes around 2^14 likewise. Oracle: each read returns the next bytes of the server's stream, at most its buffer, at least one unless the buffer is empty or the stream has ended, and does not wait when the bytes \
         that have arrived suffice. At the end (close_notify, transport end) exactly the server's bytes have been read, in each of the std::io::Read ways.",
    );
    // (a) composition x read sequence; many experiments share a connection
    let sizes: &[usize] = if th { &[0, 1, 2, 3, 4, 6, 9] } else { &[0, 1, 2, 3, 6] };
    let depth = 4u32;
    let lens = if th { 1..=6usize } else { 1..=5 };
    let mut comps = vec![];
    for l in lens.clone() {
        comps.extend(compositions(l, if l >= 5 { if th { 3 } else { 2 } } else { 5 }));
    }
    let nseq = sizes.len().pow(depth);
    let per = 8;
    c.par(comps.len().div_ceil(per), |j| {
        let part = &comps[j * per..((j + 1) * per).min(comps.len())];
        c.case(&format!("mix/{}", part.iter().map(|x| show(x)).collect::<Vec<_>>().join(",")), || {
            let mut l = live(eof, SEED)?;
            for comp in part {
                for s in 0..nseq {
                    l.plan.borrow_mut().items.extend(comp.iter().cloned());
                    let mut x = s;
                    let mut seq = vec![];
                    for _ in 0..depth {
                        seq.push(sizes[x % sizes.len()]);
                        x /= sizes.len();
                    }
                    for &n in &seq {
                        l.read(n).map_err(|e| format!("records {} read as {:?}: {}", show(comp), seq, e))?;
                    }
                    l.settle().map_err(|e| format!("records {} read as {:?}: {}", show(comp), seq, e))?;
                }
            }
            c.add_traces((part.len() * nseq) as u64 - 1);
            Ok("in order, no wait".into())
        });
    });
    c.bound(format!("{} record sequences carrying {:?} bytes x all {} sequences of {} reads of sizes {:?}", comps.len(), lens, nseq, depth, sizes));

    // (b) big records and big reads
    let rs: &[usize] = if th { &[0, 1, 2, 255, 256, 8192, 16383, 16384] } else { &[0, 1, 256, 16383, 16384] };
    let ns: &[usize] = if th { &[1, 2, 255, 256, 257, 4096, 16383, 16384, 16385, 32767, 32768, 32769, 70000] } else { &[1, 255, 16383, 16384, 16385, 32769, 70000] };
    let (a, b) = (rs.len().pow(3), ns.len().pow(2));
    c.par(a, |i| {
        let recs3 = [rs[i % rs.len()], rs[i / rs.len() % rs.len()], rs[i / rs.len() / rs.len()]];
        c.case(&format!("big/{:?}", recs3), || {
            let mut l = live(eof, SEED)?;
            for j in 0..b {
                let reads = [ns[j % ns.len()], ns[j / ns.len()]];
                {
                    let mut p = l.plan.borrow_mut();
                    for (k, n) in recs3.iter().enumerate() {
                        p.items.push_back((APP, pattern(k as u8 + j as u8, *n)));
                    }
                    // enough behind it that no read has to be filled byte by byte
                    for k in 0..9 {
                        p.items.push_back((APP, pattern(50 + k, 16384)));
                    }
                }
                for n in reads {
                    l.read(n).map_err(|e| format!("records {:?} read as {:?}: {}", recs3, reads, e))?;
                }
                l.settle().map_err(|e| format!("records {:?} read as {:?}: {}", recs3, reads, e))?;
            }
            c.add_traces(b as u64 - 1);
            Ok("in order, no wait".into())
        });
    });
    c.bound(format!("{} triples of record sizes {:?} x {} pairs of read sizes {:?}", a, rs, b, ns));

    // (b') very large buffers: a length kept in 16 or 20 (thorough: 24) bits anywhere on the way
    let mut ns = vec![65535usize, 65536, 65537, 100_000, 131_072, 262_144, (1 << 20) - 1, 1 << 20, (1 << 20) + 1];
    if th {
        ns.extend([1 << 21, (1 << 21) + 5, 1 << 22, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    } else {
        ns.push((1 << 24) + 1);
    }
    let rs = [16384usize, 16383, 4000];
    c.par(ns.len() * rs.len(), |i| {
        let (n, r) = (ns[i / rs.len()], rs[i % rs.len()]);
        if n > 1 << 21 && r != 16384 {
            return;
        }
        c.case(&format!("huge/{}/{}", n, r), || {
            let mut l = live(eof, SEED)?;
            for reads in [vec![n], vec![1, n], vec![n, 7, 16384]] {
                if n > 1 << 21 && reads.len() > 1 {
                    continue;
                }
                let total: usize = reads.iter().sum();
                for k in 0..total / r + 2 {
                    l.plan.borrow_mut().items.push_back((APP, pattern(k as u8, r)));
                }
                for &k in &reads {
                    // a short read is allowed: go on until as much has come
                    let mut got = 0;
                    while got < k {
                        got += l.read(k - got).map_err(|e| format!("records of {} read as {:?}: {}", r, reads, e))?;
                    }
                }
                l.settle()?;
                c.add_traces(1);
            }
            Ok("in order, no wait".into())
        });
    });
    c.bound(format!("reads into buffers of {:?} bytes from records of {:?} (the largest: 16384) bytes", ns, rs));

    // every read size against a stream of records of every size
    let top = if th { 300 } else { 64 };
    c.par(top, |i| {
        c.case(&format!("grid/{}", i + 1), || {
            let mut l = live(eof, SEED)?;
            for n in 1..=top {
                for k in 0..6u8 {
                    l.plan.borrow_mut().items.push_back((APP, pattern(k, i + 1)));
                }
                for _ in 0..5 {
                    l.read(n).map_err(|e| format!("records of {} read by {}: {}", i + 1, n, e))?;
                }
                l.settle()?;
            }
            c.add_traces(top as u64 - 1);
            Ok("in order, no wait".into())
        });
    });
    c.bound(format!("records of 1..={} bytes x reads of 1..={} bytes", top, top));

    // one record of every size and a first read of every size below it; then the rest at once
    let top = if th { 2200usize } else { 800 };
    c.par(top, |i| {
        // largest first
        let r = top - i;
        c.case(&format!("split/{}", r), || {
            let mut l = live(eof, SEED)?;
            for n in 1..r {
                l.plan.borrow_mut().items.push_back((APP, pattern((n >> 3) as u8, r)));
                l.read(n).map_err(|e| format!("a record of {} read by {}: {}", r, n, e))?;
                l.settle().map_err(|e| format!("a record of {} read by {}, then the rest: {}", r, n, e))?;
            }
            c.add_traces((r as u64).saturating_sub(2));
            Ok("in order, no wait".into())
        });
    });
    c.bound(format!("records of 1..={} bytes, each split by a first read of every smaller size", top));

    // (c) to the end of the stream
    let mut comps = vec![vec![], vec![(APP, vec![])], vec![(HS, vec![0, 0, 0, 0])]];
    for l in 1..=4usize {
        comps.extend(compositions(l, if th { 5 } else { 2 }));
    }
    comps.push(vec![(APP, pattern(1, 16384)), (APP, pattern(2, 16384)), (APP, pattern(3, 5))]);
    const WAYS: [&str; 13] = ["read_exact", "take", "io::copy", "read_to_string", "read 1", "read 3", "read 100", "read_to_end", "bytes", "BufReader", "read_vectored", "read_vectored after an empty slice", "read 0 between"];
    c.par(comps.len() * WAYS.len() * 2, |i| {
        let (comp, way, close) = (&comps[i / WAYS.len() / 2], WAYS[i / 2 % WAYS.len()], i % 2 == 0);
        c.case(&format!("end/{}/{}/{}", show(comp), way, if close { "close_notify" } else { "eof" }), || {
            let mut l = live(eof, SEED)?;
            {
                let mut p = l.plan.borrow_mut();
                p.filler = false;
                p.items.extend(comp.iter().cloned());
                if close {
                    p.items.push_back((ALERT, vec![1, 0]));
                }
            }
            let want: Vec<u8> = comp.iter().filter(|x| x.0 == APP).flat_map(|x| x.1.clone()).collect();
            let mut got = vec![];
            match way {
                "read_to_end" => {
                    let k = l.c.read_to_end(&mut got).map_err(|e| format!("read_to_end: {}", e))?;
                    if k != got.len() {
                        return Err("read_to_end miscounts".into());
                    }
                }
                "read_exact" => {
                    // as many as there are, then one more: the stream has ended
                    got = vec![0; want.len()];
                    l.c.read_exact(&mut got).map_err(|e| format!("read_exact: {}", e))?;
                    let mut one = [0u8];
                    match l.c.read_exact(&mut one) {
                        Ok(()) => return Err("read_exact finds a byte behind the end of the stream".into()),
                        Err(_) => {}
                    }
                }
                "take" => {
                    // in portions that are not a buffer's size
                    loop {
                        let before = got.len();
                        Read::by_ref(&mut l.c).take(5).read_to_end(&mut got).map_err(|e| format!("take: {}", e))?;
                        if got.len() > before + 5 {
                            return Err("take(5) gives more than 5 bytes".into());
                        }
                        if got.len() == before {
                            break;
                        }
                    }
                }
                "io::copy" => {
                    let k = std::io::copy(&mut l.c, &mut got).map_err(|e| format!("copy: {}", e))?;
                    if k != got.len() as u64 {
                        return Err("copy miscounts".into());
                    }
                }
                "read_to_string" => {
                    let mut t = String::new();
                    match l.c.read_to_string(&mut t) {
                        Ok(k) if k == t.len() => got = t.into_bytes(),
                        Ok(_) => return Err("read_to_string miscounts".into()),
                        // not UTF-8: nothing to compare
                        Err(e) if e.kind() == std::io::ErrorKind::InvalidData && std::str::from_utf8(&want).is_err() => got = want.clone(),
                        Err(e) => return Err(format!("read_to_string: {}", e)),
                    }
                }
                "bytes" => {
                    for b in Read::by_ref(&mut l.c).bytes() {
                        got.push(b.map_err(|e| format!("bytes: {}", e))?);
                    }
                }
                "BufReader" => {
                    let mut r = BufReader::with_capacity(3, &mut l.c);
                    loop {
                        let b = r.fill_buf().map_err(|e| format!("fill_buf: {}", e))?.to_vec();
                        if b.is_empty() {
                            break;
                        }
                        got.extend_from_slice(&b[..1]);
                        r.consume(1);
                    }
                }
                "read_vectored" | "read_vectored after an empty slice" => loop {
                    let (mut a, mut b) = ([0u8; 2], [0u8; 3]);
                    let mut e: [u8; 0] = [];
                    let mut s = vec![IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)];
                    if way != "read_vectored" {
                        s.insert(0, IoSliceMut::new(&mut e));
                    }
                    let k = l.c.read_vectored(&mut s).map_err(|e| format!("read_vectored: {}", e))?;
                    if k == 0 {
                        break;
                    }
                    got.extend([&a[..], &b[..]].concat().iter().take(k));
                },
                "read 0 between" => loop {
                    let mut e: [u8; 0] = [];
                    for _ in 0..2 {
                        if l.c.read(&mut e).map_err(|e| format!("read(0): {}", e))? != 0 {
                            return Err("read into an empty buffer returned more than 0".into());
                        }
                    }
                    let mut b = [0u8; 2];
                    let k = l.c.read(&mut b).map_err(|e| format!("read: {}", e))?;
                    if k == 0 {
                        break;
                    }
                    got.extend_from_slice(&b[..k]);
                },
                _ => {
                    let n: usize = way[5..].parse().unwrap();
                    let (g, r) = drain(&mut l.c, n);
                    r.map_err(|e| format!("read: {}", e))?;
                    got = g;
                }
            }
            if got != want {
                return Err(format!("{} bytes read to the end, the server sent {}: {:02x?} / {:02x?}", got.len(), want.len(), &got[..got.len().min(40)], &want[..want.len().min(40)]));
            }
            Ok("exactly the server's bytes".into())
        });
    });
    c.bound(format!("{} record sequences read to the end in {} ways, ending in close_notify or transport end", comps.len(), WAYS.len()));

    // (d) writes between reads change nothing
    c.par(3usize.pow(6), |i| {
        c.case(&format!("rw/{}", i), || {
            let mut l = live(eof, SEED)?;
            let mut x = i;
            for k in 0..6u8 {
                l.plan.borrow_mut().items.push_back((APP, pattern(k, 4)));
                match x % 3 {
                    0 => {
                        l.read(3)?;
                    }
                    1 => l.c.write_all(&pattern(k, 30)).map_err(|e| format!("write: {}", e))?,
                    _ => {
                        l.read(6)?;
                    }
                }
                x /= 3;
            }
            // one after another: what is planned is still what comes
            for n in [1, 2, 4] {
                l.read(n)?;
            }
            l.run.sync();
            l.run.problems()?;
            Ok("independent".into())
        });
    });
    c.bound("all 729 mixes of 6 reads and writes");
    c.finish()
}
