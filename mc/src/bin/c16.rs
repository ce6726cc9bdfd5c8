//! C16: handshake messages come out the same however they are fragmented.
use husk::handshake::HandshakeBuffer;
use husk::tls::TlsReader;
use husk::tls_item::TlsItem;
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::Cursor;

fn bytes_of(h: &husk::handshake::Handshake) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    h.tls_write(&mut o).map_err(|e| format!("a message that came out cannot be written: {:?}", e.kind))?;
    Ok(o)
}

/// Feed the stream cut as told; after every piece exactly the complete messages must be there.
fn buffer(msgs: &[Vec<u8>], cuts: &dyn Fn(usize) -> bool, drain_each: bool) -> Result<(), String> {
    let stream: Vec<u8> = msgs.concat();
    let mut ends = vec![];
    let mut at = 0;
    for m in msgs {
        at += m.len();
        ends.push(at);
    }
    let mut hb = HandshakeBuffer::new();
    let mut out = 0;
    let mut start = 0;
    for i in 1..=stream.len() {
        if i < stream.len() && !cuts(i) {
            continue;
        }
        hb.add_record(&stream[start..i]);
        start = i;
        if !drain_each && i < stream.len() {
            continue;
        }
        loop {
            match hb.get_message() {
                Err(e) => return Err(format!("after {} of {} bytes: {:?} {}", i, stream.len(), e.kind, e.desc)),
                Ok(None) => break,
                Ok(Some(h)) => {
                    if out >= msgs.len() || ends[out] > i {
                        return Err(format!("a message comes out early or from nowhere after {} bytes", i));
                    }
                    if bytes_of(&h)? != msgs[out] {
                        return Err(format!("message {} comes out as another one", out));
                    }
                    out += 1;
                }
            }
        }
        if ends.iter().filter(|&&e| e <= i).count() != out {
            return Err(format!("after {} bytes {} messages have come out", i, out));
        }
    }
    Ok(())
}

/// The same through the record reader (unprotected).
fn reader(msgs: &[Vec<u8>], pieces: &[usize]) -> Result<(), String> {
    let stream: Vec<u8> = msgs.concat();
    let mut wire = Vec::new();
    let mut at = 0;
    for &p in pieces {
        wire.extend(rec(HS, &stream[at..at + p]));
        at += p;
    }
    let n = wire.len();
    let mut r = TlsReader::new(Cursor::new(wire));
    for (i, m) in msgs.iter().enumerate() {
        match r.read_handshake() {
            Ok(h) => {
                if &bytes_of(&h)? != m {
                    return Err(format!("message {} comes out of the reader as another one", i));
                }
            }
            Err(e) => return Err(format!("message {} is refused by the reader: {:?} {}", i, e.kind, e.desc)),
        }
    }
    if r.get_mut().position() != n as u64 {
        return Err("not all records are read".into());
    }
    match r.read_handshake() {
        Ok(_) => Err("one message too many comes out of the reader".into()),
        Err(_) => Ok(()),
    }
}

struct Wire {
    /// record lengths of the flight
    flight: Vec<usize>,
    /// record lengths of Finished
    fin: Vec<usize>,
    /// everything up to and with CCS and Finished in separate deliveries or together
    chunk: usize,
}

fn split(stream: &[u8], pieces: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 0;
    for &p in pieces {
        v.push(stream[at..at + p].to_vec());
        at += p;
    }
    assert!(at == stream.len(), "HARNESS pieces");
    v
}

fn client(cfg: Cfg, w: &Wire) -> Result<String, String> {
    let mut st = 0;
    let (fl, fi) = (w.flight.clone(), w.fin.clone());
    let run = world(cfg, move |s| {
        st += 1;
        match st {
            1 => {
                let f = s.cfg.flight();
                Feed::Bytes(split(&f, &fl).iter().flat_map(|p| rec(HS, p)).collect())
            }
            2 => match s.finished() {
                Some(m) => {
                    let mut o = rec(CCS, &[1]);
                    for p in split(&m, &fi) {
                        o.extend(s.seal(HS, &p));
                    }
                    Feed::Bytes(o)
                }
                None => Feed::Stall,
            },
            _ => Feed::Stall,
        }
    });
    run.world.borrow_mut().rp.max = w.chunk;
    let mut c = run.connect().map_err(|e| format!("a fragmented conforming handshake is refused: {:?} {}", e.kind, e.desc))?;
    use std::io::Write;
    c.write(b"hello").map_err(|e| e.to_string())?;
    run.sync();
    run.problems()?;
    if run.server.borrow().app_data() != b"hello" {
        return Err("after the handshake the client's data does not arrive".into());
    }
    Ok("established".into())
}

fn pieces(n: usize, cuts: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    let mut last = 0;
    for &c in cuts {
        if c > last && c < n {
            v.push(c - last);
            last = c;
        }
    }
    v.push(n - last);
    v
}

/// A ChangeCipherSpec at byte `at` of the flight (cut there), or inside a further message.
fn ccs_inside(at: usize, max_record: usize) -> Result<String, String> {
    let mut st = 0;
    let run = world(default_cfg(), move |s| {
        st += 1;
        match st {
            1 => {
                let f = s.cfg.flight();
                let mut o = recs(HS, &f[..at], max_record);
                o.extend(rec(CCS, &[1]));
                o.extend(recs(HS, &f[at..], max_record));
                Feed::Bytes(o)
            }
            2 => match s.finished() {
                Some(m) => {
                    let mut o = vec![];
                    if at % 2 == 0 {
                        o.extend(rec(CCS, &[1]));
                    }
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                None => Feed::Eof,
            },
            _ => Feed::Eof,
        }
    });
    match run.connect() {
        Ok(_) => Err("established with a ChangeCipherSpec inside the server's flight".into()),
        Err(e) if kind(&e) == "UnexpectedMessage" => Ok("refused".into()),
        Err(e) => Err(format!("a ChangeCipherSpec inside the flight is reported as {:?} ({})", e.kind, e.desc)),
    }
}

/// `k` bytes of message `what` before the ChangeCipherSpec, the rest protected after it.
fn straddle(what: usize, k: usize, with_flight: bool, whole_after: bool) -> Result<String, String> {
    let mut st = 0;
    let run = world(default_cfg(), move |s| {
        st += 1;
        let early = |m: &[u8]| m[..k.min(m.len())].to_vec();
        match st {
            1 => {
                let mut f = s.cfg.flight();
                if with_flight {
                    // in the flight's last record: only what needs no keys
                    let m = match what {
                        0 => hs(20, &[0; 12]),
                        1 => hs(0, &[]),
                        _ => hs(14, &[]),
                    };
                    f.extend(early(&m));
                }
                Feed::Bytes(recs(HS, &f, 1 << 14))
            }
            2 => {
                let fin = match s.finished() {
                    Some(m) => m,
                    None => return Feed::Eof,
                };
                let m = match what {
                    0 => fin.clone(),
                    1 => hs(0, &[]),
                    _ => hs(14, &[]),
                };
                let e = early(&m);
                let mut o = vec![];
                if !with_flight {
                    o.extend(rec(HS, &e));
                }
                o.extend(rec(CCS, &[1]));
                let rest = if whole_after { m.clone() } else { m[e.len()..].to_vec() };
                if !rest.is_empty() {
                    o.extend(s.seal(HS, &rest));
                }
                if what != 0 {
                    o.extend(s.seal(HS, &fin));
                }
                Feed::Bytes(o)
            }
            _ => Feed::Eof,
        }
    });
    match run.connect() {
        Ok(_) => Err("established although a handshake message spans the ChangeCipherSpec".into()),
        Err(e) if kind(&e) == "UnexpectedMessage" => Ok("refused".into()),
        Err(e) => Err(format!("a ChangeCipherSpec inside a handshake message is reported as {:?} ({})", e.kind, e.desc)),
    }
}

fn main() {
    let c = Ctx::new("C16", "model_checking");
    let th = c.thorough();
    c.rule(
        "All 2^(n-1) ways of cutting short message sequences into pieces are fed to the reassembly buffer and (with record headers) to the record reader; the real handshake is run with all single and \
         double cuts of its flight, all subsets of cuts around message boundaries, and cut Finished messages; ChangeCipherSpec is put at every byte of the flight and inside further \
         messages. Oracle: the same messages, as soon as and not before they are complete; an error for every message that spans a key change.",
    );
    // ---- buffer and reader, every composition
    let seqs: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("hr-shd", vec![hs(0, &[]), hs(14, &[]), hs(0, &[])]),
        ("fin", vec![hs(20, &pattern(1, 12))]),
        ("shd-cke", vec![hs(14, &[]), hs(16, &[1, 9]), hs(14, &[])]),
        ("cert", vec![hs(11, &[0, 0, 5, 0, 0, 2, 7, 8]), hs(14, &[])]),
        ("cke-empty", vec![hs(16, &[]), hs(16, &[]), hs(16, &[5]), hs(0, &[])]),
        ("headers", vec![hs(16, &[14, 0, 0, 0]), hs(12, &[0, 0, 0, 0, 20]), hs(14, &[])]),
    ];
    let mut seqs = seqs;
    if th {
        seqs.push(("fin-hr", vec![hs(20, &pattern(1, 12)), hs(0, &[]), hs(14, &[])]));
        seqs.push(("long", vec![hs(16, &pattern(2, 9)), hs(11, &[0, 0, 0]), hs(14, &[])]));
    }
    for (name, m) in &seqs {
        let n: usize = m.iter().map(|x| x.len()).sum();
        let total = 1usize << (n - 1);
        let per = 256.min(total);
        c.par(total / per, |blk| {
            c.case(&format!("compose/{}/{}", name, blk), || {
                for k in 0..per {
                    let mask = blk * per + k;
                    let cut = |i: usize| mask >> (i - 1) & 1 == 1;
                    buffer(m, &cut, true).map_err(|e| format!("cuts {:b}: {}", mask, e))?;
                    buffer(m, &cut, false).map_err(|e| format!("cuts {:b}, drained at the end: {}", mask, e))?;
                    let cuts: Vec<usize> = (1..n).filter(|&i| cut(i)).collect();
                    reader(m, &pieces(n, &cuts)).map_err(|e| format!("cuts {:b}: {}", mask, e))?;
                }
                if !c.replaying() {
                    c.add_states(per as u64 * n as u64);
                    c.add_transitions(per as u64 * n as u64);
                    c.add_traces(3 * per as u64 - 1);
                    c.count("compositions", per as u64);
                }
                Ok("reassembled".into())
            });
        });
        c.bound(format!("{}: all {} ways of cutting {} bytes", name, total, n));
    }
    // ---- the whole flight through the reader: all subsets of cuts at and around the boundaries
    let cfg = default_cfg();
    let msgs = vec![cfg.server_hello(), cfg.certificate(), cfg.ske(), cfg.shd()];
    let flight = cfg.flight();
    let n = flight.len();
    let mut bounds = vec![];
    let mut at = 0;
    for m in &msgs {
        for d in [0usize, 1, 3, 4] {
            bounds.push(at + d);
        }
        bounds.push(at + m.len() - 1);
        at += m.len();
    }
    bounds.retain(|&b| b > 0 && b < n);
    bounds.sort();
    bounds.dedup();
    let k = bounds.len();
    let per = 1 << 9;
    c.par((1usize << k) / per, |blk| {
        c.case(&format!("flight/{}", blk), || {
            for j in 0..per {
                let mask = blk * per + j;
                let cuts: Vec<usize> = (0..k).filter(|&i| mask >> i & 1 == 1).map(|i| bounds[i]).collect();
                reader(&msgs, &pieces(n, &cuts)).map_err(|e| format!("cuts {:?}: {}", cuts, e))?;
            }
            if !c.replaying() {
                c.add_states(per as u64);
                c.add_transitions(per as u64 * 4);
                c.add_traces(per as u64 - 1);
                c.count("compositions", per as u64);
            }
            Ok("reassembled".into())
        });
    });
    c.bound(format!("the server's flight: all 2^{} subsets of the cuts at and around message boundaries", k));
    // every pair (thorough: triple) of cuts, and uniform sizes
    c.par(n, |a| {
        c.case(&format!("cuts/{}", a), || {
            let mut cnt = 0;
            for b in a..n {
                reader(&msgs, &pieces(n, &[a, b]))?;
                cnt += 1;
                for d in if th { b + 1..n } else { b + 1..b + 1 } {
                    reader(&msgs, &pieces(n, &[a, b, d]))?;
                    cnt += 1;
                }
            }
            if a > 0 {
                let cuts: Vec<usize> = (1..n).filter(|i| i % a == 0).collect();
                reader(&msgs, &pieces(n, &cuts))?;
            }
            if !c.replaying() {
                c.count("compositions", cnt);
                c.add_states(cnt);
                c.add_transitions(cnt * 4);
                c.add_traces(cnt);
            }
            Ok("reassembled".into())
        });
    });
    c.bound(format!("the server's flight: all {} of cuts of {} bytes and all uniform record sizes", if th { "triples" } else { "pairs" }, n));
    // long messages
    let mut jobs = vec![];
    for sz in [1usize, 255, 256, 16379, 16380, 16381, 32768, 65531, 65532, 65536, 70000, 1 << 20] {
        for mr in [1usize, 7, 1000, 16383, 16384] {
            if sz / mr < 200_000 {
                jobs.push((sz, mr));
            }
        }
    }
    // up to the largest length there is
    for sz in [(1usize << 23) - 1, 1 << 23, (1 << 24) - 5, (1 << 24) - 4, (1 << 24) - 3, (1 << 24) - 2, (1 << 24) - 1] {
        jobs.push((sz, 16384));
    }
    c.par(jobs.len(), |i| {
        let (sz, mr) = jobs[i];
        c.case(&format!("long/{}/{}", sz, mr), || {
            let m = vec![hs(14, &[]), hs(16, &pattern(3, sz)), hs(14, &[])];
            let n: usize = m.iter().map(|x| x.len()).sum();
            let cuts: Vec<usize> = (1..n).filter(|i| i % mr == 0).collect();
            reader(&m, &pieces(n, &cuts))?;
            Ok("reassembled".into())
        });
    });
    c.bound(format!("{} long messages up to 2^24 - 1 bytes in records of 1 to 16384 bytes", jobs.len()));

    // ---- after the handshake: HelloRequests, however they come, around data
    let hr = hs(0, &[]);
    let mut jobs: Vec<(usize, u32, u32)> = vec![];
    for k in 1..=if th { 4usize } else { 3 } {
        for mask in 0..1u32 << (4 * k - 1) {
            // between which messages data stands, where the cuts allow it
            for data in 0..1u32 << (k - 1) {
                if (0..k - 1).all(|i| data >> i & 1 == 0 || mask >> (4 * i + 3) & 1 == 1) {
                    jobs.push((k, mask, data));
                }
            }
        }
    }
    let per = 64;
    let blocks = (jobs.len() + per - 1) / per;
    c.par(blocks, |blk| {
        c.case(&format!("late/{}", blk), || {
            for &(k, mask, data) in &jobs[blk * per..jobs.len().min(blk * per + per)] {
                let mut e = establish(default_cfg(), stall)?;
                let stream: Vec<u8> = (0..k).flat_map(|_| hr.clone()).collect();
                let mut want = vec![];
                let mut start = 0;
                let put = |want: &mut Vec<u8>, i: usize| {
                    let d = pattern(i as u8, 3);
                    want.extend(&d);
                    e.send(APP, &d);
                };
                put(&mut want, 1);
                for i in 1..=stream.len() {
                    if i == stream.len() || mask >> (i - 1) & 1 == 1 {
                        e.send(HS, &stream[start..i]);
                        start = i;
                        if i % 4 == 0 && (i == stream.len() || data >> (i / 4 - 1) & 1 == 1) {
                            put(&mut want, i);
                        }
                    }
                }
                let mut got = vec![0; want.len()];
                // the first data record, then what the HelloRequests stand before
                std::io::Read::read_exact(&mut e.c, &mut got).map_err(|x| format!("{} HelloRequests, cuts {:b}, data {:b}: {}", k, mask, data, x))?;
                if got != want {
                    return Err(format!("{} HelloRequests, cuts {:b}, data {:b}: wrong data", k, mask, data));
                }
            }
            if !c.replaying() {
                c.add_traces(per as u64 - 1);
                c.count("compositions", per as u64);
            }
            Ok("data around HelloRequests".into())
        });
    });
    c.bound(format!("after the handshake: all {} ways of cutting up to {} HelloRequests, with data between them wherever it may stand", jobs.len(), if th { 4 } else { 3 }));

    // ---- the real handshake
    let mut jobs: Vec<Wire> = vec![];
    for sz in 1..=n {
        jobs.push(Wire { flight: pieces(n, &(1..n).filter(|i| i % sz == 0).collect::<Vec<_>>()), fin: vec![16], chunk: 0 });
    }
    for a in 1..n {
        jobs.push(Wire { flight: pieces(n, &[a]), fin: vec![16], chunk: 1 + a % 3 });
    }
    for i in 0..k {
        for j in i + 1..k {
            jobs.push(Wire { flight: pieces(n, &[bounds[i], bounds[j]]), fin: vec![16], chunk: 0 });
        }
    }
    for mask in 0..1usize << 15 {
        if th || mask.count_ones() <= 2 || mask.count_ones() >= 14 {
            let cuts: Vec<usize> = (1..16).filter(|i| mask >> (i - 1) & 1 == 1).collect();
            jobs.push(Wire { flight: vec![n], fin: pieces(16, &cuts), chunk: 0 });
        }
    }
    c.par(jobs.len(), |i| {
        c.case(&format!("client/{:?}/{:?}/{}", jobs[i].flight.len().min(3), i, jobs[i].chunk), || client(cfg.clone(), &jobs[i]));
    });
    c.bound(format!("{} real handshakes: uniform record sizes, single cuts, boundary pairs, {} of Finished", jobs.len(), if th { "all 2^15 cuts" } else { "cuts" }));

    // ---- messages and key changes
    c.par(n, |at| {
        for mr in [1 << 14, 5] {
            c.case(&format!("ccs-inside/{}/{}", at, mr), || ccs_inside(at, mr));
        }
    });
    c.bound(format!("ChangeCipherSpec at each of {} positions of the flight", n));
    for what in 0..3 {
        for kk in 1..16usize {
            if what > 0 && kk > 3 {
                continue;
            }
            for wf in [false, true] {
                for wa in [false, true] {
                    c.case(&format!("straddle/{}/{}/{}/{}", what, kk, wf, wa), || straddle(what, kk, wf, wa));
                }
            }
        }
    }
    c.bound("every proper prefix of Finished, HelloRequest and ServerHelloDone before the ChangeCipherSpec, the rest or the whole after it");
    c.finish()
}
