//! C10: how the transport chunks and interrupts its calls is invisible.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{Read, Write};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Session {
    /// handshake, data both ways, close
    Full,
    /// wrong server Finished
    BadFinished,
    /// unexpected message in the handshake
    BadMessage,
    /// forged record after some data
    Forged,
    /// two large records
    Large,
    /// like Full, with a server of another shape
    Shape(usize),
}
use Session::*;

#[derive(PartialEq, Clone)]
struct Seen {
    connect: String,
    calls: Vec<String>,
    data: Vec<u8>,
    out: Vec<u8>,
    delivered: u64,
}

fn shape(i: usize) -> Cfg {
    static ALL: OnceLock<Vec<(String, Cfg)>> = OnceLock::new();
    ALL.get_or_init(shapes)[i].1.clone()
}

fn play(s: Session, rp: ReadPolicy, wp: WritePolicy) -> Seen {
    let (run, q, _end) = match s {
        BadFinished => {
            let mut st = 0;
            let r = world(default_cfg(), move |s| {
                st += 1;
                match st {
                    1 => Feed::Bytes(recs(HS, &s.cfg.flight(), 100)),
                    2 => {
                        let mut o = rec(CCS, &[1]);
                        let mut m = s.finished().unwrap_or(hs(20, &[0; 12]));
                        m[15] ^= 1;
                        if s.keys.is_some() {
                            o.extend(s.seal(HS, &m));
                        }
                        Feed::Bytes(o)
                    }
                    _ => Feed::Eof,
                }
            });
            (r, Default::default(), std::rc::Rc::new(std::cell::Cell::new(eof as fn() -> Feed)))
        }
        BadMessage => {
            let mut st = 0;
            let r = world(default_cfg(), move |s| {
                st += 1;
                match st {
                    1 => {
                        let mut f = recs(HS, &s.cfg.server_hello(), 30);
                        f.extend(rec(HS, &s.cfg.ske()));
                        Feed::Bytes(f)
                    }
                    _ => Feed::Eof,
                }
            });
            (r, Default::default(), std::rc::Rc::new(std::cell::Cell::new(eof as fn() -> Feed)))
        }
        Shape(i) => scripted_peer(shape(i), eof),
        _ => scripted_peer(default_cfg(), eof),
    };
    {
        let mut w = run.world.borrow_mut();
        w.rp = rp;
        w.wp = wp;
    }
    let mut seen = Seen { connect: String::new(), calls: vec![], data: vec![], out: vec![], delivered: 0 };
    match run.connect() {
        Err(e) => seen.connect = kind(&e),
        Ok(mut c) => {
            seen.connect = "ok".into();
            {
                let mut sv = run.server.borrow_mut();
                let mut q = q.borrow_mut();
                let mut send = |b: Vec<u8>| q.push_back(Feed::Bytes(b));
                match s {
                    Large => {
                        send(sv.seal(APP, &pattern(1, 1 << 14)));
                        send(sv.seal(APP, &pattern(2, 1 << 14)));
                    }
                    _ => {
                        let mut b = sv.seal(APP, b"abc");
                        b.extend(sv.seal(APP, b""));
                        b.extend(sv.seal(APP, &pattern(1, 20)));
                        send(b);
                        if s == Forged {
                            let mut x = sv.seal(APP, b"zzz");
                            x[7] ^= 1;
                            send(x);
                        } else {
                            send(sv.seal(APP, &pattern(2, 30)));
                            send(sv.seal(ALERT, &[1, 0]));
                        }
                    }
                }
            }
            let up: Vec<usize> = if s == Large { vec![40_000] } else { vec![5, 0, 33] };
            for (i, n) in up.iter().enumerate() {
                let r = c.write(&pattern(i as u8, *n)).map_err(|e| e.to_string());
                seen.calls.push(format!("write {:?}", r));
            }
            let sizes: &[usize] = if s == Large { &[30_000, 10_000] } else { &[2, 7, 20, 0, 50, 10] };
            for &n in sizes {
                let mut b = vec![0; n];
                let r = c.read(&mut b);
                if let Ok(k) = r {
                    seen.data.extend_from_slice(&b[..k.min(n)]);
                }
                seen.calls.push(format!("read {:?}", r.map_err(|e| e.to_string())));
            }
            seen.calls.push(format!("flush {:?}", c.flush().map_err(|e| e.to_string())));
            seen.calls.push(format!("close {:?}", c.close().map_err(|e| kind(&e))));
        }
    }
    let w = run.world.borrow();
    seen.out = w.out.clone();
    seen.delivered = w.delivered;
    seen
}

fn same(ideal: &Seen, got: &Seen) -> Result<String, String> {
    if ideal.connect != got.connect {
        return Err(format!("the handshake result becomes {} instead of {}", got.connect, ideal.connect));
    }
    if ideal.calls != got.calls {
        let i = (0..ideal.calls.len()).find(|&i| ideal.calls.get(i) != got.calls.get(i)).unwrap_or(0);
        return Err(format!("call {} gives {:?} instead of {:?}", i, got.calls.get(i), ideal.calls.get(i)));
    }
    if ideal.data != got.data {
        return Err("other data is delivered".into());
    }
    if ideal.out != got.out {
        return Err(format!("other bytes are sent ({} instead of {})", got.out.len(), ideal.out.len()));
    }
    Ok(format!("same: {}", ideal.connect))
}

fn main() {
    let c = Ctx::new("C10", "model_checking");
    let th = c.thorough();
    c.rule(
        "A session is executed once over an ideal transport and then under every enumerated transport schedule: where read and write calls are cut short and where they \
         report ErrorKind::Interrupted. Oracle: identical bytes sent, identical data, identical result of every call.",
    );
    for s in [Full, BadFinished, BadMessage, Forged, Large] {
        let ideal = play(s, ReadPolicy::default(), WritePolicy::default());
        let expect = match s {
            Full | Forged | Large | Shape(_) => "ok",
            BadFinished => "DecryptError",
            BadMessage => "UnexpectedMessage",
        };
        c.case(&format!("{:?}/ideal", s), || {
            if ideal.connect != expect {
                return Err(format!("over an ideal transport the session ends in {} instead of {}", ideal.connect, expect));
            }
            same(&ideal, &play(s, ReadPolicy::default(), WritePolicy::default()))
        });
        let (rd, wr) = (ideal.delivered, ideal.out.len() as u64);
        let ideal = &ideal;
        let one = |key: String, rp: ReadPolicy, wp: WritePolicy| {
            c.case(&format!("{:?}/{}", s, key), || same(ideal, &play(s, rp.clone(), wp.clone())));
        };
        let rp = |f: fn(&mut ReadPolicy, Vec<u64>), v: Vec<u64>| {
            let mut p = ReadPolicy::default();
            f(&mut p, v);
            p
        };
        let wp = |f: fn(&mut WritePolicy, Vec<u64>), v: Vec<u64>| {
            let mut p = WritePolicy::default();
            f(&mut p, v);
            p
        };
        // uniform chunk sizes
        let m: usize = if s == Large { 6 } else { 64 };
        c.par(m * 2, |i| {
            let n = if s == Large { [1, 2, 16, 100, 1000, 16384][i % m] } else { i % m + 1 };
            if i < m {
                one(format!("read<={}", n), ReadPolicy { max: n, ..Default::default() }, Default::default());
                one(format!("both<={}", n), ReadPolicy { max: n, ..Default::default() }, WritePolicy { max: n, ..Default::default() });
            } else {
                one(format!("write<={}", n), Default::default(), WritePolicy { max: n, ..Default::default() });
            }
        });
        // single offsets
        let step = if s == Large { if th { 37 } else { 211 } } else { 1 };
        let win: u64 = if s == Large { 0 } else if th { 40 } else { 7 };
        c.par((rd as usize + step - 1) / step, |i| {
            let a = (i * step) as u64;
            one(format!("rcut/{}", a), rp(|p, v| p.cut_at = v, vec![a]), Default::default());
            one(format!("rint/{}", a), rp(|p, v| p.interrupt_at = v, vec![a]), Default::default());
            one(format!("rint3/{}", a), rp(|p, v| p.interrupt_at = v, vec![a, a, a]), Default::default());
            for n in [20usize, 300, 3000] {
                // many in a row
                if s == Full && (n == 20 || a % 16 < 2) || s == Large && i % 16 == 0 {
                    one(format!("rint{}/{}", n, a), rp(|p, v| p.interrupt_at = v, vec![a; n]), Default::default());
                }
            }
            for b in a + 1..(a + 1 + win).min(rd) {
                one(format!("rcut/{}/{}", a, b), rp(|p, v| p.cut_at = v, vec![a, b]), Default::default());
                one(format!("rint/{}/{}", a, b), rp(|p, v| p.interrupt_at = v, vec![a, b]), Default::default());
            }
        });
        c.par((wr as usize + step - 1) / step, |i| {
            let a = (i * step) as u64;
            one(format!("wcut/{}", a), Default::default(), wp(|p, v| p.cut_at = v, vec![a]));
            one(format!("wint/{}", a), Default::default(), wp(|p, v| p.interrupt_at = v, vec![a]));
            one(format!("wint3/{}", a), Default::default(), wp(|p, v| p.interrupt_at = v, vec![a, a, a]));
            for n in [20usize, 300, 3000] {
                if s == Full && (n == 20 || a % 16 < 2) || s == Large && i % 16 == 0 {
                    one(format!("wint{}/{}", n, a), Default::default(), wp(|p, v| p.interrupt_at = v, vec![a; n]));
                }
            }
            for b in a + 1..(a + 1 + win).min(wr) {
                one(format!("wcut/{}/{}", a, b), Default::default(), wp(|p, v| p.cut_at = v, vec![a, b]));
                one(format!("wint/{}/{}", a, b), Default::default(), wp(|p, v| p.interrupt_at = v, vec![a, b]));
            }
        });
        // interruptions before every byte, and one-byte calls interrupted all along
        if s != Large {
            for n in [0usize, 1, 3] {
                one(format!("rstorm/{}", n), ReadPolicy { interrupt_at: (0..rd + 10).collect(), max: n, ..Default::default() }, Default::default());
                one(format!("wstorm/{}", n), Default::default(), WritePolicy { interrupt_at: (0..wr + 10).collect(), max: n, ..Default::default() });
                one(
                    format!("storm/{}", n),
                    ReadPolicy { interrupt_at: (0..rd + 10).collect(), max: n, ..Default::default() },
                    WritePolicy { interrupt_at: (0..wr + 10).collect(), max: n, ..Default::default() },
                );
            }
            if th {
                // all pairs, however far apart
                c.par(rd as usize, |a| {
                    for b in a as u64 + 1..rd {
                        one(format!("rcut/{}/{}", a, b), rp(|p, v| p.cut_at = v, vec![a as u64, b]), Default::default());
                    }
                });
                c.par(wr as usize, |a| {
                    for b in a as u64 + 1..wr {
                        one(format!("wcut/{}/{}", a, b), Default::default(), wp(|p, v| p.cut_at = v, vec![a as u64, b]));
                    }
                });
                c.par(rd as usize, |a| {
                    for b in (0..wr).step_by(5) {
                        one(format!("rw/{}/{}", a, b), rp(|p, v| p.interrupt_at = v, vec![a as u64]), wp(|p, v| p.interrupt_at = v, vec![b]));
                    }
                });
            }
        }
        c.bound(format!(
            "session {:?}: {} bytes read, {} written; uniform chunks; every (step {}) offset cut, interrupted once, three and twenty times, some 300 and 3000 times; all pairs within {} bytes; interruption before every byte",
            s, rd, wr, step, win
        ));
    }
    let n = shapes().len();
    c.bound(format!("{} further shapes of servers: 4 chunk sizes, every offset (of long streams: near the ends) cut and interrupted alone, interruption before every byte", n));
    c.par(n, |k| {
        let s = Shape(k);
        let ideal = play(s, ReadPolicy::default(), WritePolicy::default());
        let one = |key: String, rp: ReadPolicy, wp: WritePolicy| {
            c.case(&format!("{:?}/{}", s, key), || {
                if ideal.connect != "ok" {
                    return Err(format!("over an ideal transport the session ends in {}", ideal.connect));
                }
                same(&ideal, &play(s, rp.clone(), wp.clone()))
            });
        };
        let (rd, wr) = (ideal.delivered, ideal.out.len() as u64);
        for n in [1usize, 2, 3, 7] {
            one(format!("both<={}", n), ReadPolicy { max: n, ..Default::default() }, WritePolicy { max: n, ..Default::default() });
        }
        for a in (0..rd).filter(|&a| rd < 900 || a < 150 || a + 400 > rd) {
            one(format!("rcut/{}", a), ReadPolicy { cut_at: vec![a], ..Default::default() }, Default::default());
            one(format!("rint/{}", a), ReadPolicy { interrupt_at: vec![a], ..Default::default() }, Default::default());
        }
        for a in 0..wr {
            one(format!("wcut/{}", a), Default::default(), WritePolicy { cut_at: vec![a], ..Default::default() });
            one(format!("wint/{}", a), Default::default(), WritePolicy { interrupt_at: vec![a], ..Default::default() });
        }
        if rd < 5000 {
            one("storm".into(), ReadPolicy { interrupt_at: (0..rd + 10).collect(), ..Default::default() }, WritePolicy { interrupt_at: (0..wr + 10).collect(), ..Default::default() });
        }
    });
    c.finish()
}
