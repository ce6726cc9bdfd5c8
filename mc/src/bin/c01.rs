//! C01: the handshake completes with every conforming server and yields the RFC key schedule.
use husk::TlsClient;
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use num_bigint::BigUint;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};

/// Cut a handshake byte stream into records at the given offsets.
fn pack(stream: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    for &c in cuts.iter().chain([stream.len()].iter()) {
        let c = c.min(stream.len());
        if c > at {
            out.extend(recs(HS, &stream[at..c], 1 << 14));
            at = c;
        }
    }
    out
}

struct Shape {
    cuts: Vec<usize>,
    fin_cuts: Vec<usize>,
    seed: u64,
    data: usize,
}

fn shape() -> Shape {
    Shape { cuts: vec![], fin_cuts: vec![], seed: SEED, data: 60 }
}

fn run(cfg: Cfg, sh: &Shape) -> Result<String, String> {
    let (cuts, fin_cuts, data) = (sh.cuts.clone(), sh.fin_cuts.clone(), sh.data);
    let mut stage = 0;
    let r = world(cfg, move |s| {
        stage += 1;
        match stage {
            1 => {
                if s.msgs.len() != 1 {
                    return Feed::Stall;
                }
                Feed::Bytes(pack(&s.cfg.flight(), &cuts))
            }
            2 => match s.finished() {
                None => Feed::Stall,
                Some(m) => {
                    let mut f = rec(CCS, &[1]);
                    let mut at = 0;
                    for &c in fin_cuts.iter().chain([m.len()].iter()) {
                        if c > at {
                            f.extend(s.seal(HS, &m[at..c]));
                            at = c;
                        }
                    }
                    Feed::Bytes(f)
                }
            },
            3 => {
                let mut f = Vec::new();
                for ch in pattern(1, data).chunks(1 << 14) {
                    f.extend(s.seal(APP, ch));
                }
                Feed::Bytes(f)
            }
            _ => Feed::Eof,
        }
    });
    // what is not flushed never arrives
    r.world.borrow_mut().buffered = true;
    let mut c = r.connect_scripted(Vec::new(), sh.seed).map_err(|e| {
        r.sync();
        format!("a conforming handshake fails: {:?} {}; {:?}", e.kind, e.desc, r.server.borrow().problems)
    })?;
    if r.stalled() {
        return Err("the client waits while it is its turn".into());
    }
    let up = pattern(2, data);
    c.write_all(&up).map_err(|e| format!("write fails: {}", e))?;
    c.flush().map_err(|e| format!("flush fails: {}", e))?;
    let mut got = vec![0u8; data];
    let mut n = 0;
    while n < data {
        match c.read(&mut got[n..]) {
            Ok(0) => break,
            Ok(k) => n += k,
            Err(e) => return Err(format!("read fails: {}", e)),
        }
    }
    if n != data || got != pattern(1, data) {
        return Err(format!("server data arrives wrong ({} of {} bytes)", n, data));
    }
    r.sync();
    r.problems()?;
    let s = r.server.borrow();
    if s.msgs.len() != 3 || !s.client_finished_ok {
        return Err(format!("client sent {} handshake messages", s.msgs.len()));
    }
    if s.app_data() != up {
        return Err("client data arrives wrong".into());
    }
    if s.records.iter().filter(|r| r.0 == CCS).count() != 1 || s.alerts().len() != 0 {
        return Err("stray records from the client".into());
    }
    Ok("established, data both ways".into())
}

fn main() {
    let c = Ctx::new("C01", "model_checking");
    let th = c.thorough();
    c.rule(
        "The real client runs in a closed world: transport, random source and peer are the harness'. The peer is an independent TLS 1.2 server \
         (own crypto, own parser, own key schedule) whose legal choices are enumerated. states = distinct observable histories (nodes of the \
         execution trees), transitions = transport events executed, traces = complete handshakes on the real code, each checked on both ends.",
    );
    c.assume("the reference server is cross-checked against published vectors at start-up (and was against OpenSSL 3 during development)");
    let base = default_cfg();
    let flen = base.flight().len();

    // ---- legal contents
    c.bound("session id 0..=32 bytes x {no, empty, point-format extension (3 forms)}");
    let exts: Vec<Option<Vec<u8>>> = vec![
        None,
        Some(vec![0, 0]),
        Some(ext_block(&[(11, vec![1, 0])])),
        Some(ext_block(&[(11, vec![3, 0, 1, 2])])),
        Some(ext_block(&[(11, vec![3, 1, 2, 0])])),
    ];
    let exts = &exts;
    c.par(33, |n| {
        for (i, e) in exts.iter().enumerate() {
            c.case(&format!("hello/{}/{}", n, i), || {
                let mut g = base.clone();
                g.session_id = pattern(n as u8, n);
                g.ext = e.clone();
                run(g, &shape())
            });
        }
    });
    let mut lists: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![1, 1, 1], vec![255], vec![256], vec![255, 256, 257], vec![16384], vec![16370, 1, 20], vec![65535], vec![65536], vec![70_000, 3], vec![200, 40_000, 7]];
    for n in (16384 - 40..16384 + 12).step_by(if th { 1 } else { 3 }) {
        lists.push(vec![n]);
    }
    // long chains, and one as large as a message can be
    for n in [4usize, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 100, 128, 255, 256, 257, 1000] {
        lists.push((0..n).map(|i| 1 + i * 7 % 300).collect());
    }
    lists.extend([vec![1 << 17], vec![(1 << 18) + 1, 5], vec![1 << 20], vec![(1 << 24) - 7]]);
    if th {
        lists.push(vec![3 << 20]);
        lists.push(vec![1; 1000]);
        for n in 3..300 {
            lists.push(vec![n]);
        }
    }
    let lists = &lists;
    c.bound(format!("{} certificate lists (1..1000 certificates, up to the largest message there is)", lists.len()));
    c.par(lists.len(), |i| {
        c.case(&format!("certs/{:?}", lists[i].iter().take(6).collect::<Vec<_>>()), || {
            let mut g = base.clone();
            g.certs = lists[i].iter().enumerate().map(|(k, n)| pattern(k as u8, *n)).collect();
            run(g, &shape())
        });
    });
    let mut sigs: Vec<usize> = (1..=300).collect();
    sigs.extend([512, 1024, 16200, 16300, 16305, 16310, 16384, 40_000, 65_535]);
    if th {
        sigs.extend(16200..16400);
    }
    let sigs = &sigs;
    c.bound(format!("{} signature lengths 1..=65535", sigs.len()));
    c.par(sigs.len(), |i| {
        c.case(&format!("sig/{}", sigs[i]), || {
            let mut g = base.clone();
            g.sig = pattern(5, sigs[i]);
            run(g, &shape())
        });
    });
    c.par(32 * 8 + 4, |i| {
        c.case(&format!("random/{}", i), || {
            let mut g = base.clone();
            g.random = match i {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => [0x80; 32],
                3 => [1; 32],
                _ => {
                    let mut r = [0u8; 32];
                    r[(i - 4) / 8] = 1 << ((i - 4) % 8);
                    r
                }
            };
            run(g, &shape())
        });
    });
    // ---- key shares, and client randomness
    let e = curve();
    let n_seeds = if th { 600 } else { 150 };
    c.bound(format!("{} client random seeds x server scalars; server scalars 1..=32, n-1..n-32, powers of two, and scalars making the shared secret start with zero bytes", n_seeds));
    c.par(n_seeds, |i| {
        c.case(&format!("seed/{}", i), || {
            let mut sh = shape();
            sh.seed = 1000 + i as u64;
            run(base.clone().with_d(BigUint::from(i as u32 * 7919 + 3)), &sh)
        });
    });
    c.par(32 + 32 + 256, |i| {
        c.case(&format!("share/{}", i), || {
            let d = match i {
                0..=31 => BigUint::from(i as u32 + 1),
                32..=63 => &e.n - (i as u32 - 31),
                _ => (BigUint::from(1u32) << (i - 64)) % &e.n,
            };
            run(base.clone().with_d(d), &shape())
        });
    });
    let zs = if th { 32 } else { 6 };
    c.par(zs, |i| {
        // the client's key share for this seed, then a server scalar whose shared secret starts with 0
        let probe = conforming(base.clone(), vec![], eof);
        let _ = probe.connect_scripted(Vec::new(), 5000 + i as u64);
        probe.sync();
        let pc = probe.server.borrow().client_point.clone();
        let pc = match pc.and_then(|p| decode_pt(&p)) {
            Some(p) => Some(p),
            None => {
                c.violate(&format!("zero/{}", i), "no valid client key share in a conforming handshake".into());
                return;
            }
        };
        let mut q = None;
        let mut k = 0u32;
        let mut found = 0;
        while found < 2 && k < 4000 {
            k += 1;
            q = e.add(&q, &pc);
            if be32(&q.as_ref().unwrap().0)[0] == 0 {
                found += 1;
                c.count("handshakes whose shared secret starts with a zero byte", 1);
                c.case(&format!("zero/{}/{}", i, k), || {
                    let mut sh = shape();
                    sh.seed = 5000 + i as u64;
                    run(base.clone().with_d(BigUint::from(k)), &sh)
                });
            }
        }
    });
    // ---- packings of the flight into records
    c.bound(format!("server flight of {} bytes: every single cut and every pair of cuts, all message groupings, uniform record sizes 1..=64; Finished: every one, two and three cuts, and one-byte records", flen));
    c.par(flen, |a| {
        for b in a..flen {
            c.case(&format!("cut/{}/{}", a, b), || {
                let mut sh = shape();
                sh.cuts = vec![a, b];
                run(base.clone(), &sh)
            });
        }
    });
    let ends: Vec<usize> = {
        let mut v = vec![];
        let mut at = 0;
        for m in [base.server_hello(), base.certificate(), base.ske()] {
            at += m.len();
            v.push(at);
        }
        v
    };
    c.par(8, |g| {
        let cuts: Vec<usize> = ends.iter().enumerate().filter(|(i, _)| g >> i & 1 == 1).map(|x| *x.1).collect();
        c.case(&format!("group/{:?}", cuts), || {
            let mut sh = shape();
            sh.cuts = cuts.clone();
            run(base.clone(), &sh)
        });
        // a grouping with a further cut around each message boundary
        for &e in &ends {
            for d in 0..6usize {
                for x in [e + d, e - d] {
                    let mut cuts = cuts.clone();
                    cuts.push(x);
                    cuts.sort();
                    c.case(&format!("group/{:?}", cuts), || {
                        let mut sh = shape();
                        sh.cuts = cuts.clone();
                        run(base.clone(), &sh)
                    });
                }
            }
        }
    });
    c.par(64, |n| {
        c.case(&format!("uniform/{}", n + 1), || {
            let mut sh = shape();
            sh.cuts = (0..flen).step_by(n + 1).collect();
            run(base.clone(), &sh)
        });
    });
    c.par(16, |a| {
        for b in a..16 {
            for d in b..16 {
                c.case(&format!("fin/{}/{}/{}", a, b, d), || {
                    let mut sh = shape();
                    sh.fin_cuts = vec![a, b, d];
                    run(base.clone(), &sh)
                });
            }
        }
    });
    c.par(2, |i| {
        c.case(&format!("tiny/{}", i), || {
            let mut sh = shape();
            sh.fin_cuts = (0..16).collect();
            if i == 1 {
                sh.cuts = (0..flen).collect();
            }
            run(base.clone(), &sh)
        });
    });
    // ---- a large legal configuration over small records, larger data
    c.par(40, |i| {
        c.case(&format!("mixed/{}", i), || {
            let mut g = base.clone();
            g.session_id = pattern(1, i % 33);
            g.ext = exts[i % exts.len()].clone();
            g.certs = (0..1 + i % 3).map(|k| pattern(k as u8, 300 + 500 * i)).collect();
            g.sig = pattern(9, 64 * (i % 9));
            let n = g.flight().len();
            let mut sh = shape();
            sh.cuts = (0..n).step_by(1 + 37 * (i + 1)).collect();
            sh.data = 1 + 800 * i;
            run(g, &sh)
        });
    });
    let all = shapes();
    c.bound(format!("{} further shapes of conforming servers (session ids, extensions, chains, signatures, randoms, shares, typical mixes) x 5 record sizes", all.len()));
    c.par(all.len(), |i| {
        let (n, g) = &all[i];
        for mr in [1usize << 14, 1000, 100, 5, 1] {
            if mr < 5 && g.flight().len() > 5000 {
                continue;
            }
            c.case(&format!("shape/{}/{}", n, mr), || {
                let mut sh = shape();
                sh.cuts = (0..g.flight().len()).step_by(mr).collect();
                run(g.clone(), &sh)
            });
        }
    });
    // ---- over a real socket
    c.par(1, |_| {
        c.case("tcp", || tcp());
    });
    c.finish()
}

/// `from_tcp` over the loopback interface, against the same reference server in a thread.
fn tcp() -> Result<String, String> {
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("HARNESS no loopback: {}", e))?;
    let addr = l.local_addr().unwrap();
    let th = std::thread::spawn(move || -> Result<Vec<u8>, String> {
        let (mut s, _) = l.accept().map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
        let mut sv = Server::new(default_cfg());
        let mut all = Vec::new();
        let mut buf = [0u8; 4096];
        let mut stage = 0;
        loop {
            let n = s.read(&mut buf).map_err(|e| e.to_string())?;
            all.extend_from_slice(&buf[..n]);
            sv.absorb(&all);
            if stage == 0 && sv.msgs.len() == 1 {
                stage = 1;
                s.write_all(&pack(&sv.cfg.flight(), &[])).map_err(|e| e.to_string())?;
            }
            if stage == 1 && sv.msgs.len() == 3 {
                stage = 2;
                let m = sv.finished().ok_or("no keys")?;
                let mut f = rec(CCS, &[1]);
                f.extend(sv.seal(HS, &m));
                f.extend(sv.seal(APP, b"over the wire"));
                s.write_all(&f).map_err(|e| e.to_string())?;
            }
            if n == 0 || sv.app_data().len() >= 5 {
                if !sv.problems.is_empty() {
                    return Err(sv.problems.join("; "));
                }
                return Ok(sv.app_data());
            }
        }
    });
    getrandom::script(Vec::new(), 77);
    let s = TcpStream::connect(addr).map_err(|e| format!("HARNESS connect: {}", e))?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    let mut c = TlsClient::from_tcp(s).map_err(|e| format!("from_tcp fails: {:?} {}", e.kind, e.desc))?;
    let mut got = [0u8; 13];
    let mut n = 0;
    while n < 13 {
        let k = c.read(&mut got[n..]).map_err(|e| e.to_string())?;
        if k == 0 {
            break;
        }
        n += k;
    }
    if &got[..n] != b"over the wire" {
        return Err("server data over TCP arrives wrong".into());
    }
    c.write_all(b"hello").map_err(|e| e.to_string())?;
    let _ = c.flush();
    match th.join() {
        Ok(Ok(d)) if d == b"hello" => Ok("established over TCP".into()),
        Ok(Ok(d)) => Err(format!("client data over TCP arrives wrong: {}", hex(&d))),
        Ok(Err(e)) => Err(format!("server side over TCP: {}", e)),
        Err(_) => Err("HARNESS server thread".into()),
    }
}
