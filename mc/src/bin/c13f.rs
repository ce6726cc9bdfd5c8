//! C13, in an unoptimised build: floods.  Every way in which a peer, the transport or the generator can make
//! the client do the same thing over and over without reporting anything, with as many repetitions as exhaust a
//! thread's default stack if any of them costs stack.  (The optimiser turns some of that recursion into loops,
//! so this part is built the way the crate's own tests are.)
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{Read, Write};

const N: usize = 20_000;

/// After the handshake: these records, then data, then the end of the stream.
fn stream(records: &[(u8, Vec<u8>)], size: usize) -> Result<String, String> {
    let mut e = establish(default_cfg(), eof)?;
    let mut b = vec![];
    for (t, p) in records {
        b.extend(e.seal(*t, p));
    }
    b.extend(e.seal(APP, b"data"));
    e.push(b);
    let mut got = vec![];
    let mut buf = vec![0; size];
    for _ in 0..records.len() + 10 {
        match e.c.read(&mut buf) {
            Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
            _ => break,
        }
    }
    // a client may answer any of this by ending the connection
    let _ = e.c.write(b"x");
    let _ = e.c.close();
    Ok(if got.ends_with(b"data") { "data after the flood" } else { "ended by the flood" }.into())
}

/// The server's first flight preceded, cut or followed by a flood.
fn opening(f: impl Fn(&Cfg) -> Vec<u8> + 'static, cfg: Cfg) -> Result<String, String> {
    let mut st = 0;
    let run = world(cfg, move |s| {
        st += 1;
        match st {
            1 => Feed::Bytes(f(&s.cfg)),
            2 => match s.finished() {
                Some(m) => {
                    let mut o = rec(CCS, &[1]);
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                None => Feed::Eof,
            },
            _ => Feed::Eof,
        }
    });
    Ok(match run.connect() {
        Ok(_) => "established".into(),
        Err(e) => kind(&e),
    })
}

fn many(ty: u8, body: &[u8], n: usize) -> Vec<u8> {
    let r = rec(ty, body);
    (0..n).flat_map(|_| r.clone()).collect()
}

fn main() {
    let c = Ctx::new("C13", "model_checking");
    let n = if c.thorough() { 5 * N } else { N };
    c.rule("Floods against an unoptimised build, on threads with the default stack.");
    let hr = hs(0, &[]);
    type Job = (String, Box<dyn Fn() -> Result<String, String> + Sync + Send>);
    let mut jobs: Vec<Job> = vec![];
    macro_rules! job {
        ($k:expr, $f:expr) => {
            jobs.push(($k.to_string(), Box::new($f)))
        };
    }
    // ---- an established connection
    let kinds: Vec<(&str, Vec<(u8, Vec<u8>)>)> = vec![
        ("empty data", vec![(APP, vec![])]),
        ("HelloRequest", vec![(HS, hr.clone())]),
        ("HelloRequest in bytes", hr.iter().map(|b| (HS, vec![*b])).collect()),
        ("3 and a half HelloRequests", vec![(HS, [&hr[..], &hr, &hr, &hr[..2]].concat()), (HS, hr[2..].to_vec())]),
        ("empty handshake", vec![(HS, vec![])]),
        ("warning", vec![(ALERT, vec![1, 90])]),
        ("no_renegotiation", vec![(ALERT, vec![1, 100])]),
        ("empty alert", vec![(ALERT, vec![])]),
        ("CCS", vec![(CCS, vec![1])]),
        ("empty CCS", vec![(CCS, vec![])]),
        ("unknown type", vec![(24, vec![0])]),
        ("data byte", vec![(APP, vec![7])]),
        ("all of it", vec![(APP, vec![]), (HS, hr.clone()), (ALERT, vec![1, 90]), (APP, vec![1]), (HS, hr[..1].to_vec()), (HS, hr[1..].to_vec())]),
    ];
    for (name, k) in kinds {
        for size in [1usize, 64, 1 << 16] {
            let k = k.clone();
            job!(format!("flood/{}/{}", name, size), move || {
                let v: Vec<_> = (0..n / k.len()).flat_map(|_| k.clone()).collect();
                stream(&v, size)
            });
        }
    }
    job!("flood/packed HelloRequests", move || {
        let v: Vec<_> = (0..n / 4000 + 1).map(|_| (HS, vec![0u8; 16000])).collect();
        stream(&v, 64)
    });
    job!("flood/handshake message that never ends", move || {
        let mut v = vec![(HS, vec![20, 0xff, 0xff, 0xff])];
        v.extend((0..n).map(|_| (HS, vec![0])));
        stream(&v, 64)
    });
    // ---- the handshake
    let kinds: Vec<(&str, u8, Vec<u8>)> = vec![
        ("HelloRequest", HS, hr.clone()),
        ("empty handshake", HS, vec![]),
        ("warning", ALERT, vec![1, 90]),
        ("empty alert", ALERT, vec![]),
        ("CCS", CCS, vec![1]),
        ("empty CCS", CCS, vec![]),
        ("empty data", APP, vec![]),
        ("unknown type", 24, vec![0]),
    ];
    for (name, t, b) in kinds {
        for at in 0..5usize {
            let b = b.clone();
            job!(format!("opening/{}/{}", name, at), move || {
                let b = b.clone();
                opening(
                    move |cfg| {
                        let m = [cfg.server_hello(), cfg.certificate(), cfg.ske(), cfg.shd()];
                        let mut o = vec![];
                        for i in 0..4 {
                            if i == at {
                                o.extend(many(t, &b, n));
                            }
                            if at == 4 {
                                // inside the message
                                o.extend(rec(HS, &m[i][..2]));
                                o.extend(many(t, &b, n));
                                o.extend(rec(HS, &m[i][2..]));
                            } else {
                                o.extend(rec(HS, &m[i]));
                            }
                        }
                        o
                    },
                    default_cfg(),
                )
            });
        }
    }
    let big = move |certs: Vec<Vec<u8>>, ext: Option<Vec<u8>>, sig: usize, mr: usize| {
        move || {
            let mut cfg = default_cfg();
            cfg.certs = certs.clone();
            cfg.ext = ext.clone();
            cfg.sig = pattern(5, sig);
            opening(move |cfg| recs(HS, &cfg.flight(), mr), cfg)
        }
    };
    job!("opening/flight in bytes", big(vec![pattern(1, n)], None, 64, 1));
    job!("opening/megabyte certificate", big(vec![pattern(1, 1 << 20)], None, 64, 1 << 14));
    job!("opening/many small certificates", big(vec![vec![1]; 3 * n], None, 64, 1 << 14));
    job!("opening/many empty certificates", big(vec![vec![]; 3 * n], None, 64, 1 << 14));
    job!("opening/many extensions", big(vec![vec![1]], Some(ext_block(&(0..16000u16).map(|i| (1000 + i, vec![])).collect::<Vec<_>>())), 64, 1 << 14));
    job!("opening/one extension over and over", big(vec![vec![1]], Some(ext_block(&vec![(0xff01, vec![]); 16000])), 64, 1 << 14));
    job!("opening/long signature", big(vec![vec![1]], None, 65535, 1000));
    // ---- the transport
    for way in ["interrupted read", "interrupted write", "short reads", "short writes"] {
        job!(format!("transport/{}", way), move || {
            let mut e = establish(default_cfg(), eof)?;
            let data = pattern(1, 1 << 14);
            for _ in 0..2 {
                e.send(APP, &data);
            }
            {
                let mut w = e.run.world.borrow_mut();
                let (r, o) = (w.delivered, w.out.len() as u64);
                match way {
                    "interrupted read" => w.rp.interrupt_at = vec![r + 3; n],
                    "interrupted write" => w.wp.interrupt_at = vec![o + 3; n],
                    "short reads" => w.rp.max = 1,
                    _ => w.wp.max = 1,
                }
            }
            let mut buf = vec![0; 2 << 14];
            e.c.write_all(&data).map_err(|x| format!("write: {}", x))?;
            e.c.write_all(&data).map_err(|x| format!("write: {}", x))?;
            e.c.read_exact(&mut buf).map_err(|x| format!("read: {}", x))?;
            if buf != [&data[..], &data].concat() {
                return Err("wrong data".into());
            }
            Ok("done".into())
        });
    }
    for size in [1usize << 24, 3, 0] {
        job!(format!("local/writes of {}", size), move || {
            let mut e = establish(default_cfg(), stall)?;
            let data = pattern(2, size);
            for _ in 0..if size > 3 { 1 } else { n } {
                e.c.write_all(&data).map_err(|x| format!("write: {}", x))?;
            }
            Ok("done".into())
        });
    }
    job!("local/reads after the end", move || {
        let mut e = establish(default_cfg(), eof)?;
        e.send(ALERT, &[1, 0]);
        for _ in 0..n {
            let _ = e.c.read(&mut [0; 4]);
        }
        Ok("done".into())
    });
    job!("local/reads of a failing transport", move || {
        let mut e = establish(default_cfg(), || Feed::Err(std::io::ErrorKind::WouldBlock))?;
        for _ in 0..1000 {
            let _ = e.c.read(&mut [0; 4]);
        }
        Ok("done".into())
    });
    // ---- the generator
    for v in [0u8, 0xff] {
        job!(format!("generator/{:02x}", v), move || {
            let run = conforming(default_cfg(), vec![], eof);
            Ok(match run.connect_scripted(vec![v; 32 * n], 3) {
                Ok(_) => "established".into(),
                Err(e) => kind(&e),
            })
        });
    }
    c.par(jobs.len(), |i| {
        c.case(&jobs[i].0, || (jobs[i].1)());
    });
    c.bound(format!("{} floods of {} repetitions", jobs.len(), n));
    c.finish()
}
