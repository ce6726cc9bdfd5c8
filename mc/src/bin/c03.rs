//! C03: a tampered handshake is never established.
use husk::util::crypto_compare;
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::cell::Cell;
use std::rc::Rc;

/// What the server answers once the client has sent its Finished: (raw bytes after CCS).
type Answer = Box<dyn Fn(&mut Server) -> Vec<u8>>;

struct Plan {
    /// handshake stream the client receives instead of the conforming flight
    wire: Option<Vec<u8>>,
    /// the server's view of the client's i-th message
    view: Option<Box<dyn Fn(usize, Vec<u8>) -> Vec<u8>>>,
    true_keys: bool,
    answer: Option<Answer>,
    ccs: bool,
    max_record: usize,
}

fn plan() -> Plan {
    Plan { wire: None, view: None, true_keys: false, answer: None, ccs: true, max_record: 1 << 14 }
}

#[derive(PartialEq, Debug)]
enum Got {
    Established,
    Refused(String, bool),
}

fn go(cfg: Cfg, p: Plan) -> (Got, Run) {
    let Plan { wire, view, true_keys, answer, ccs, max_record } = p;
    let mut stage = 0;
    let reached = Rc::new(Cell::new(false));
    let r2 = reached.clone();
    let run = world(cfg, move |s| {
        if stage == 0 {
            if s.msgs.is_empty() {
                return Feed::Stall;
            }
            stage = 1;
            let f = wire.clone().unwrap_or(s.cfg.flight());
            return Feed::Bytes(recs(HS, &f, max_record));
        }
        if stage == 1 && s.msgs.len() == 3 && s.keys.is_some() {
            stage = 2;
            r2.set(true);
            let mut f = if ccs { rec(CCS, &[1]) } else { vec![] };
            f.extend(match &answer {
                Some(a) => a(s),
                None => {
                    let m = s.finished().unwrap();
                    s.seal(HS, &m)
                }
            });
            return Feed::Bytes(f);
        }
        Feed::Eof
    });
    {
        let mut s = run.server.borrow_mut();
        s.view = view;
        s.true_keys = true_keys;
        s.check_finished = false;
    }
    let r = run.connect();
    let g = match r {
        Ok(_) => Got::Established,
        Err(e) => Got::Refused(kind(&e), reached.get()),
    };
    (g, run)
}

fn must_refuse(cfg: Cfg, p: Plan) -> Result<String, String> {
    match go(cfg, p).0 {
        Got::Established => Err("the connection is established although the two sides do not agree on the handshake".into()),
        Got::Refused(k, r) => Ok(format!("refused: {}{}", k, if r { " at the server Finished" } else { "" })),
    }
}

fn must_establish(cfg: Cfg, p: Plan) -> Result<String, String> {
    match go(cfg, p).0 {
        Got::Established => Ok("control: established".into()),
        g => Err(format!("the untampered control handshake fails: {:?}", g)),
    }
}

fn main() {
    let c = Ctx::new("C03", "model_checking");
    let th = c.thorough();
    c.rule(
        "The peer keeps the conforming transcript while single bytes of what the other side receives are replaced; it always goes on to send its Finished \
         (it is deliberately not the one to notice). Oracle: the constructor must return an error for every difference; the untampered control must establish. \
         The verify-data comparison is called directly on all one- and two-byte differences.",
    );
    let base = default_cfg();
    let mut rich = base.clone();
    rich.ext = Some(ext_block(&[(11, vec![1, 0]), (0xff01, vec![0])]));
    rich.certs = vec![pattern(1, 40), pattern(2, 33)];
    // RSA signatures are 256 bytes; a short one exercises the same code
    rich.sig = pattern(3, 20);
    let cfgs = [("base", base.clone()), ("rich", rich.clone())];
    for (n, g) in &cfgs {
        c.case(&format!("control/{}", n), || must_establish(g.clone(), plan()));
    }
    // ---- server to client
    c.bound("server flights of two shapes: every bit of every byte flipped, bytes set to 0, 1, 255, deleted, duplicated (all 255 substitutions in the thorough tier); structured rewrites");
    for (n, g) in &cfgs {
        let flight = g.flight();
        c.par(flight.len(), |i| {
            let mut vals: Vec<u8> = (0..8).map(|b| flight[i] ^ 1 << b).collect();
            vals.extend([0, 1, 255]);
            if th {
                vals = (0..=255).collect();
            }
            vals.sort();
            vals.dedup();
            for v in vals {
                if v == flight[i] {
                    continue;
                }
                c.case(&format!("s2c/{}/{}/{:02x}", n, i, v), || {
                    let mut w = flight.clone();
                    w[i] = v;
                    must_refuse(g.clone(), Plan { wire: Some(w), ..plan() })
                });
            }
            c.case(&format!("s2c/{}/{}/del", n, i), || {
                let mut w = flight.clone();
                w.remove(i);
                must_refuse(g.clone(), Plan { wire: Some(w), ..plan() })
            });
            c.case(&format!("s2c/{}/{}/dup", n, i), || {
                let mut w = flight.clone();
                w.insert(i, flight[i]);
                must_refuse(g.clone(), Plan { wire: Some(w), ..plan() })
            });
        });
    }
    // whole-field rewrites that keep the encoding valid
    let mut alts: Vec<(String, Cfg)> = Vec::new();
    for l in 0..=32usize {
        let mut g = base.clone();
        g.session_id = pattern(7, l);
        alts.push((format!("session/{}", l), g));
    }
    for (n, e) in [
        ("none", None),
        ("empty", Some(vec![0, 0])),
        ("points", Some(ext_block(&[(11, vec![1, 0])]))),
        ("two", Some(ext_block(&[(11, vec![1, 0]), (0xff01, vec![0])]))),
        ("swapped", Some(ext_block(&[(0xff01, vec![0]), (11, vec![1, 0])]))),
        ("unknown", Some(ext_block(&[(99, vec![1, 2, 3])]))),
    ] {
        for b in [&base, &rich] {
            let mut g = b.clone();
            g.ext = e.clone();
            alts.push((format!("ext/{}", n), g));
        }
    }
    for cs in [vec![vec![1u8]], vec![vec![1u8], vec![2]], vec![pattern(2, 33), pattern(1, 40)], vec![pattern(1, 40)], vec![pattern(1, 73)]] {
        for b in [&base, &rich] {
            let mut g = b.clone();
            g.certs = cs.clone();
            alts.push(("certs".into(), g));
        }
    }
    for l in [0usize, 1, 11, 13, 19, 21, 256] {
        let mut g = base.clone();
        g.sig = pattern(3, l);
        alts.push((format!("sig/{}", l), g));
    }
    for h in 0..=6u8 {
        for s in 0..=3u8 {
            let mut g = base.clone();
            g.sigalg = (h, s);
            alts.push((format!("sigalg/{}/{}", h, s), g));
        }
    }
    for k in 3..12u32 {
        alts.push((format!("share/{}", k), base.clone().with_d(k.into())));
    }
    alts.push(("share/negated".into(), base.clone().with_d(&curve().n - 2u32)));
    let alts = &alts;
    c.par(alts.len(), |i| {
        for (n, g) in &cfgs {
            let w = alts[i].1.flight();
            if w == g.flight() {
                continue;
            }
            c.case(&format!("rewrite/{}/{}/{}", n, i, alts[i].0), || must_refuse(g.clone(), Plan { wire: Some(w.clone()), ..plan() }));
            // the same differences, but agreed by both: establishes (the tampering is what is refused)
            if alts[i].1.ext.as_ref().map_or(true, |e| e.len() < 20) && *n == "base" {
                c.case(&format!("control/rewrite/{}", i), || match go(alts[i].1.clone(), plan()).0 {
                    Got::Established => Ok("control: established".into()),
                    // unusual but agreed values may be refused by a stricter client: not this property
                    Got::Refused(k, _) => Ok(format!("control: {}", k)),
                });
            }
        }
    });
    // bytes put into or taken out of a message with its length field put right
    c.bound("every position of every server message: 1..=4 bytes (00, 01, ff) inserted or 1 byte removed, with the handshake length corrected");
    for (n, g) in &cfgs {
        let msgs = [g.server_hello(), g.certificate(), g.ske(), g.shd()];
        for (mi, m) in msgs.iter().enumerate() {
            let refit = |mut b: Vec<u8>| {
                let l = b.len() - 4;
                b[1] = (l >> 16) as u8;
                b[2] = (l >> 8) as u8;
                b[3] = l as u8;
                let mut w = Vec::new();
                for (k, x) in msgs.iter().enumerate() {
                    w.extend_from_slice(if k == mi { &b } else { x });
                }
                w
            };
            c.par(m.len() - 3, |i| {
                let i = i + 4;
                for k in 1..=4usize {
                    for v in [0u8, 1, 255] {
                        c.case(&format!("insert/{}/{}/{}/{}x{:02x}", n, mi, i, k, v), || {
                            let mut b = m.clone();
                            for _ in 0..k {
                                b.insert(i, v);
                            }
                            must_refuse(g.clone(), Plan { wire: Some(refit(b)), ..plan() })
                        });
                    }
                }
                if i < m.len() {
                    c.case(&format!("remove/{}/{}/{}", n, mi, i), || {
                        let mut b = m.clone();
                        b.remove(i);
                        must_refuse(g.clone(), Plan { wire: Some(refit(b)), ..plan() })
                    });
                }
            });
        }
    }
    // ---- client to server
    let lens: [usize; 3] = {
        let (_, run) = go(base.clone(), plan());
        run.sync();
        let s = run.server.borrow();
        [0, 1, 2].map(|i| s.msgs.get(i).map_or(0, |m| m.len()))
    };
    c.bound(format!("client messages of {:?} bytes: every bit of every byte of the server's copy flipped, with the keys derived from the altered or from the true messages", lens));
    for (mi, &len) in lens.iter().enumerate() {
        c.par(len, |i| {
            for b in 0..8 {
                for true_keys in [false, true] {
                    c.case(&format!("c2s/{}/{}/{}/{}", mi, i, b, true_keys), || {
                        let view = Box::new(move |k: usize, mut m: Vec<u8>| {
                            if k == mi {
                                m[i] ^= 1 << b;
                            }
                            m
                        });
                        must_refuse(base.clone(), Plan { view: Some(view), true_keys, ..plan() })
                    });
                }
            }
            for what in 0..2 {
                c.case(&format!("c2s/{}/{}/{}", mi, i, ["del", "dup"][what]), || {
                    let view = Box::new(move |k: usize, mut m: Vec<u8>| {
                        if k == mi {
                            if what == 0 {
                                m.remove(i);
                            } else {
                                m.insert(i, m[i]);
                            }
                        }
                        m
                    });
                    must_refuse(base.clone(), Plan { view: Some(view), true_keys: true, ..plan() })
                });
            }
        });
    }
    // ---- the server Finished
    c.bound("server Finished: all 255 values of each of its 16 plaintext bytes, every bit of its record, lengths 0..=40, wrong label, transcript, secret, key, sequence number, type, protection; reflected client records");
    let fin = |f: Box<dyn Fn(&mut Server) -> Vec<u8>>| Plan { answer: Some(f), ..plan() };
    c.par(16, |i| {
        for d in 1..=255u8 {
            c.case(&format!("fin/byte/{}/{:02x}", i, d), || {
                must_refuse(base.clone(), fin(Box::new(move |s| {
                    let mut m = s.finished().unwrap();
                    m[i] ^= d;
                    s.seal(HS, &m)
                })))
            });
        }
    });
    c.par(12 * 12, |ij| {
        let (i, j) = (ij / 12, ij % 12);
        if i >= j {
            return;
        }
        // cancelling and non-cancelling pairs
        for (a, b) in [(1u8, 1u8), (0x80, 0x80), (0xff, 0xff), (1, 0xff), (0x10, 0x10), (0x55, 0xaa)] {
            c.case(&format!("fin/pair/{}/{}/{:02x}{:02x}", i, j, a, b), || {
                must_refuse(base.clone(), fin(Box::new(move |s| {
                    let mut m = s.finished().unwrap();
                    m[4 + i] ^= a;
                    m[4 + j] ^= b;
                    s.seal(HS, &m)
                })))
            });
        }
    });
    c.par(37, |i| {
        for b in 0..8 {
            c.case(&format!("fin/record/{}/{}", i, b), || {
                must_refuse(base.clone(), fin(Box::new(move |s| {
                    let m = s.finished().unwrap();
                    let mut r = s.seal(HS, &m);
                    r[i] ^= 1 << b;
                    r
                })))
            });
        }
    });
    c.par(41, |n| {
        for k in 0..3 {
            if n == 12 && k == 0 {
                continue;
            }
            c.case(&format!("fin/len/{}/{}", n, k), || {
                must_refuse(base.clone(), fin(Box::new(move |s| {
                    let v = match k {
                        0 => {
                            // the right stream, cut or prolonged
                            let key = s.keys.clone().unwrap();
                            let mut t = s.msgs[0].clone();
                            t.extend(s.cfg.flight());
                            t.extend(&s.msgs[1]);
                            t.extend(&s.msgs[2]);
                            prf(&key.master, "server finished", &sha256(&t), n.max(1))[..n].to_vec()
                        }
                        1 => vec![0; n],
                        _ => vec![0xff; n],
                    };
                    s.seal(HS, &hs(20, &v))
                })))
            });
        }
    });
    let labels = ["client finished", "server finishe", "server finished ", "Server finished", "", "master secret", "key expansion", "finished"];
    c.par(labels.len() * 2, |i| {
        c.case(&format!("fin/label/{}", i), || {
            must_refuse(base.clone(), fin(Box::new(move |s| {
                let m = s.finished_labelled(labels[i / 2], i % 2 == 0).unwrap();
                s.seal(HS, &m)
            })))
        });
    });
    // every wrong transcript made of the handshake messages: each one left out, doubled, swapped with its neighbour
    let tr = |s: &Server| -> Vec<Vec<u8>> { vec![s.msgs[0].clone(), s.cfg.server_hello(), s.cfg.certificate(), s.cfg.ske(), s.cfg.shd(), s.msgs[1].clone(), s.msgs[2].clone()] };
    c.par(7 * 4 + 4, |i| {
        if i / 7 == 2 && i % 7 == 6 {
            return;
        }
        c.case(&format!("fin/transcript/{}", i), || {
            must_refuse(base.clone(), fin(Box::new(move |s| {
                let mut t = tr(s);
                let k = i % 7;
                match i / 7 {
                    0 => {
                        t.remove(k);
                    }
                    1 => t.insert(k, t[k].clone()),
                    2 => t.swap(k, k + 1),
                    3 => {
                        // one message without its header
                        t[k] = t[k][4.min(t[k].len())..].to_vec();
                        if t[k].is_empty() {
                            t.truncate(3);
                        }
                    }
                    _ => match i - 28 {
                        0 => t.clear(),
                        1 => t.insert(6, rec(CCS, &[1])),
                        2 => t.insert(0, hs(0, &[])),
                        _ => t.push(hs(20, &[0; 12])),
                    },
                }
                let key = s.keys.clone().unwrap();
                let m = hs(20, &prf(&key.master, "server finished", &sha256(&t.concat()), 12));
                s.seal(HS, &m)
            })))
        });
    });
    // wrong secrets
    c.par(5, |i| {
        c.case(&format!("fin/secret/{}", i), || {
            must_refuse(base.clone(), fin(Box::new(move |s| {
                let key = s.keys.clone().unwrap();
                let sec: Vec<u8> = match i {
                    0 => vec![],
                    1 => vec![0; 48],
                    2 => key.master[..47].to_vec(),
                    3 => key.cw.to_vec(),
                    _ => key.master.iter().rev().cloned().collect(),
                };
                let m = hs(20, &prf(&sec, "server finished", &sha256(&tr(s).concat()), 12));
                s.seal(HS, &m)
            })))
        });
    });
    // wrong record protection of the right message
    let prot: Vec<(&str, Answer)> = vec![
        ("plain", Box::new(|s| rec(HS, &s.finished().unwrap()))),
        ("client-key", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&k.cw, &k.civ, 0, HS, &s.finished().unwrap())
        })),
        ("client-key-1", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&k.cw, &k.civ, 1, HS, &s.finished().unwrap())
        })),
        ("client-iv", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&k.sw, &k.civ, 0, HS, &s.finished().unwrap())
        })),
        ("server-iv-client-key", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&k.cw, &k.siv, 0, HS, &s.finished().unwrap())
        })),
        ("zero-iv", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&k.sw, &[0; 12], 0, HS, &s.finished().unwrap())
        })),
        ("zero-key", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            seal(&[0; 32], &k.siv, 0, HS, &s.finished().unwrap())
        })),
        ("app-type", Box::new(|s| {
            let m = s.finished().unwrap();
            s.seal(APP, &m)
        })),
        ("type-relabelled", Box::new(|s| {
            let m = s.finished().unwrap();
            let mut r = s.seal(APP, &m);
            r[0] = HS;
            r
        })),
        ("version-relabelled", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            let mut r = seal_v(&k.sw, &k.siv, 0, HS, (3, 1), &s.finished().unwrap());
            r[2] = 3;
            r
        })),
        ("no-ad-length", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            let ct = aead_seal(&k.sw, &nonce(&k.siv, 0), &s.finished().unwrap(), &ad(0, HS, (3, 3), 0));
            rec(HS, &ct)
        })),
        ("wire-length-ad", Box::new(|s| {
            let k = s.keys.clone().unwrap();
            let ct = aead_seal(&k.sw, &nonce(&k.siv, 0), &s.finished().unwrap(), &ad(0, HS, (3, 3), 32));
            rec(HS, &ct)
        })),
        ("no-tag", Box::new(|s| {
            let m = s.finished().unwrap();
            let r = s.seal(HS, &m);
            rec(HS, &r[5..21])
        })),
        ("zero-tag", Box::new(|s| {
            let m = s.finished().unwrap();
            let mut r = s.seal(HS, &m);
            for b in &mut r[21..] {
                *b = 0
            }
            r
        })),
    ];
    for (n, a) in prot {
        let a = Rc::new(a);
        c.case(&format!("fin/protection/{}", n), || {
            let a = a.clone();
            must_refuse(base.clone(), fin(Box::new(move |s| a(s))))
        });
    }
    c.par(70, |i| {
        if i == 0 {
            return;
        }
        c.case(&format!("fin/seq/{}", i), || {
            must_refuse(base.clone(), fin(Box::new(move |s| {
                let k = s.keys.clone().unwrap();
                let q = if i < 6 { i as u64 } else { 1u64 << (i - 6) };
                seal(&k.sw, &k.siv, q, HS, &s.finished().unwrap())
            })))
        });
    });
    // no ChangeCipherSpec at all
    for prot in [false, true] {
        c.case(&format!("fin/no-ccs/{}", prot), || {
            must_refuse(base.clone(), Plan {
                ccs: false,
                answer: Some(Box::new(move |s| {
                    let m = s.finished().unwrap();
                    if prot {
                        s.seal(HS, &m)
                    } else {
                        rec(HS, &m)
                    }
                })),
                ..plan()
            })
        });
    }
    // the client's own flight sent back
    c.case("fin/reflect", || {
        let base = base.clone();
        let mut stage = 0;
        let buf: Rc<std::cell::RefCell<Vec<u8>>> = Rc::default();
        let b2 = buf.clone();
        let s = Rc::new(std::cell::RefCell::new(Server::new(base.clone())));
        let world = World::new(Box::new(move |seen: &[u8]| {
            *b2.borrow_mut() = seen.to_vec();
            stage += 1;
            if stage == 1 {
                s.borrow_mut().absorb(seen);
                return Feed::Bytes(recs(HS, &base.flight(), 1 << 14));
            }
            if stage == 2 {
                let (rs, _) = split_records(seen);
                let mut o = Vec::new();
                let mut on = false;
                for r in rs {
                    on |= r[0] == CCS;
                    if on {
                        o.extend(r);
                    }
                }
                return Feed::Bytes(o);
            }
            Feed::Eof
        }));
        getrandom::script(vec![], SEED);
        match husk::TlsClient::new(End(world.clone()), End(world), rand::rngs::OsRng) {
            Ok(_) => Err("the client accepts its own Finished sent back".into()),
            Err(e) => Ok(format!("refused: {:?}", e.kind)),
        }
    });
    // Finished as it should be, in every two-part fragmentation: control
    c.par(15, |i| {
        c.case(&format!("control/fin/{}", i + 1), || {
            must_establish(base.clone(), fin(Box::new(move |s| {
                let m = s.finished().unwrap();
                let mut r = s.seal(HS, &m[..i + 1]);
                r.extend(s.seal(HS, &m[i + 1..]));
                r
            })))
        });
    });
    // ---- the comparison itself
    c.bound("crypto_compare: equal strings of length 0..=64; all single-byte differences up to length 64; all 66 x 65025 two-byte differences at length 12; all single positions with all values at lengths 1..=64");
    c.par(65, |n| {
        c.case(&format!("compare/{}", n), || {
            for tag in 0..8u8 {
                let a = pattern(tag, n);
                let mut b = a.clone();
                if !crypto_compare(&a, &b) {
                    return Err(format!("equal strings of length {} compare unequal", n));
                }
                for i in 0..n {
                    for d in 1..=255u8 {
                        b[i] ^= d;
                        if crypto_compare(&a, &b) || crypto_compare(&b, &a) {
                            return Err(format!("strings of length {} that differ by {:02x} at {} compare equal", n, d, i));
                        }
                        b[i] ^= d;
                    }
                }
            }
            Ok("comparison exact".into())
        });
    });
    c.par(12, |i| {
        for j in i + 1..12 {
            c.case(&format!("compare2/{}/{}", i, j), || {
                let a = pattern(9, 12);
                let mut b = a.clone();
                for d in 1..=255u8 {
                    for e in 1..=255u8 {
                        b[i] = a[i] ^ d;
                        b[j] = a[j] ^ e;
                        if crypto_compare(&a, &b) {
                            return Err(format!("strings differing by {:02x} at {} and {:02x} at {} compare equal", d, i, e, j));
                        }
                    }
                }
                Ok("comparison exact".into())
            });
        }
    });
    // ---- servers of every other shape
    let all = shapes();
    c.bound(format!("{} further shapes of servers: one bit of each byte of the flight (of long certificates: near their ends), of each client message, of the server Finished; all-zero and unprotected Finished", all.len()));
    c.par(all.len() * 8, |ij| {
        let ((name, g), part) = (&all[ij / 8], ij % 8);
        let flight = g.flight();
        let mut near: Vec<usize> = vec![0];
        let mut at = 0;
        for m in [g.server_hello(), g.certificate(), g.ske(), g.shd()] {
            at += m.len();
            near.push(at);
        }
        if part == 0 {
            c.case(&format!("control/shape/{}", name), || must_establish(g.clone(), plan()));
        }
        for i in (part..flight.len()).step_by(8) {
            if flight.len() > 600 && !near.iter().any(|&x| i.abs_diff(x) < 60) {
                continue;
            }
            let bit = 1u8 << (i % 8);
            c.case(&format!("shape/{}/s2c/{}", name, i), || {
                let mut w = flight.clone();
                w[i] ^= bit;
                must_refuse(g.clone(), Plan { wire: Some(w), ..plan() })
            });
        }
        for (mi, &len) in lens.iter().enumerate() {
            for i in (part..len).step_by(8) {
                c.case(&format!("shape/{}/c2s/{}/{}", name, mi, i), || {
                    let view = Box::new(move |k: usize, mut m: Vec<u8>| {
                        if k == mi {
                            m[i] ^= 1 << (i % 8);
                        }
                        m
                    });
                    must_refuse(g.clone(), Plan { view: Some(view), true_keys: true, ..plan() })
                });
            }
        }
        for i in (part..16).step_by(8) {
            for bit in [1u8, 0x80] {
                c.case(&format!("shape/{}/fin/{}/{:02x}", name, i, bit), || {
                    must_refuse(g.clone(), fin(Box::new(move |s| {
                        let mut m = s.finished().unwrap();
                        m[i] ^= bit;
                        s.seal(HS, &m)
                    })))
                });
            }
        }
        if part == 1 {
            c.case(&format!("shape/{}/fin/zero", name), || must_refuse(g.clone(), fin(Box::new(|s| s.seal(HS, &hs(20, &[0; 12]))))));
            c.case(&format!("shape/{}/fin/none", name), || must_refuse(g.clone(), fin(Box::new(|_| vec![]))));
            c.case(&format!("shape/{}/fin/plain", name), || must_refuse(g.clone(), fin(Box::new(|s| rec(HS, &s.finished().unwrap())))));
            c.case(&format!("shape/{}/fin/data", name), || must_refuse(g.clone(), fin(Box::new(|s| s.seal(APP, b"data")))));
            c.case(&format!("shape/{}/fin/mine", name), || {
                must_refuse(g.clone(), fin(Box::new(|s| {
                    let m = s.msgs[2].clone();
                    s.seal(HS, &m)
                })))
            });
        }
    });
    c.finish()
}
