//! C04: only what was offered is ever negotiated.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;

struct Ans {
    version: (u8, u8),
    suite: [u8; 2],
    comp: u8,
    curve_type: u8,
    curve: u16,
}

fn ok() -> Ans {
    Ans { version: (3, 3), suite: SUITE, comp: 0, curve_type: 3, curve: 23 }
}

fn flight(cfg: &Cfg, a: &Ans) -> Vec<u8> {
    let mut h = cfg.server_hello();
    h[4] = a.version.0;
    h[5] = a.version.1;
    let p = 4 + 2 + 32 + 1 + cfg.session_id.len();
    h[p] = a.suite[0];
    h[p + 1] = a.suite[1];
    h[p + 2] = a.comp;
    h.extend(cfg.certificate());
    h.extend(cfg.ske_with(a.curve_type, a.curve, &cfg.public));
    h.extend(cfg.shd());
    h
}

/// The server answers with `a` and otherwise conforms, to the very end.
fn go(cfg: &Cfg, a: &Ans, legal: bool, max_record: usize) -> Result<String, String> {
    let f = flight(cfg, a);
    let f2 = f.clone();
    let mut stage = 0;
    let run = world(cfg.clone(), move |s| {
        stage += 1;
        match stage {
            1 => Feed::Bytes(recs(HS, &f2, max_record)),
            2 => match s.finished() {
                Some(m) => {
                    let mut o = rec(CCS, &[1]);
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                None => Feed::Eof,
            },
            _ => Feed::Eof,
        }
    });
    run.server.borrow_mut().flight_override = Some(f);
    let r = run.connect();
    run.sync();
    let s = run.server.borrow();
    match (legal, r) {
        (true, Ok(_)) => {
            drop(s);
            run.problems()?;
            Ok("the offered parameters: established".into())
        }
        (true, Err(e)) => Err(format!("the offered parameters are refused: {:?} {}", e.kind, e.desc)),
        (false, Ok(_)) => Err("the connection is established with a parameter that was never offered".into()),
        (false, Err(e)) => {
            if s.records.iter().any(|r| r.0 == CCS || r.0 == APP) || s.msgs.len() != 1 || s.records.iter().filter(|r| r.0 == HS).count() != 1 {
                return Err(format!("the client sends key material before refusing ({:?})", e.kind));
            }
            if kind(&e) == "IoFailure" || kind(&e) == "InternalError" {
                return Err(format!("refused with {:?} ({}) instead of a verdict on the parameter", e.kind, e.desc));
            }
            Ok(format!("refused: {:?}", e.kind))
        }
    }
}

fn main() {
    let c = Ctx::new("C04", "model_checking");
    let th = c.thorough();
    c.rule(
        "The server answers with every value of one negotiated parameter (and every combination of a corner set) and otherwise conforms to the end, with the \
         transcript it really sent, so that nothing but the client's own check can stop it. Oracle: established iff every parameter is the offered one; \
         a refusal comes before any ClientKeyExchange. The ClientHello of every random seed is parsed strictly by the reference server.",
    );
    c.bound("all 65536 versions, 65536 suites, 65536 named curves, 256 compression methods, 256 curve types; all combinations of 6 x 7 x 4 x 4 x 9 corner values");
    let cfg = default_cfg();
    let versions: Vec<(u8, u8)> = (0..=65535u32).map(|v| ((v >> 8) as u8, v as u8)).collect();
    let chunk = 256;
    c.par(256, |h| {
        for l in 0..chunk {
            let v = (h as u8, l as u8);
            c.case(&format!("version/{:?}", v), || go(&cfg, &Ans { version: v, ..ok() }, v == (3, 3), 1 << 14));
            c.case(&format!("suite/{:?}", v), || go(&cfg, &Ans { suite: [v.0, v.1], ..ok() }, [v.0, v.1] == SUITE, 1 << 14));
            let cu = (h * 256 + l) as u16;
            c.case(&format!("curve/{}", cu), || go(&cfg, &Ans { curve: cu, ..ok() }, cu == 23, 1 << 14));
        }
    });
    let _ = versions;
    c.par(256, |v| {
        c.case(&format!("compression/{}", v), || go(&cfg, &Ans { comp: v as u8, ..ok() }, v == 0, 1 << 14));
        c.case(&format!("curve-type/{}", v), || go(&cfg, &Ans { curve_type: v as u8, ..ok() }, v == 3, 1 << 14));
    });
    // combinations, with other legal surroundings
    let vs = [(3u8, 3u8), (3, 1), (3, 2), (3, 4), (2, 0), (254, 253)];
    let ss = [SUITE, [0xcc, 0x13], [0xcc, 0xa9], [0, 0x2f], [0xc0, 0x2f], [0x13, 3], [0, 0]];
    let cs = [0u8, 1, 64, 255];
    let ts = [3u8, 1, 2, 0];
    let us = [23u16, 22, 24, 25, 1, 0, 29, 0xff01, 0xff02];
    c.par(vs.len() * ss.len(), |i| {
        let (v, s) = (vs[i / ss.len()], ss[i % ss.len()]);
        for m in cs {
            for t in ts {
                for u in us {
                    let legal = v == (3, 3) && s == SUITE && m == 0 && t == 3 && u == 23;
                    c.case(&format!("mix/{:?}/{:?}/{}/{}/{}", v, s, m, t, u), || go(&cfg, &Ans { version: v, suite: s, comp: m, curve_type: t, curve: u }, legal, 1 << 14));
                }
            }
        }
    });
    // each wrong value with other server hellos and packings around it
    c.bound("one wrong value of each kind with session ids 0..=32 bytes, 4 extension blocks and record sizes 1..=40");
    c.par(33 * 4, |i| {
        let mut g = cfg.clone();
        g.session_id = pattern(3, i / 4);
        g.ext = [None, Some(vec![0, 0]), Some(ext_block(&[(11, vec![1, 0])])), Some(ext_block(&[(11, vec![2, 1, 0]), (0xff01, vec![0])]))][i % 4].clone();
        for (k, a) in [
            ok(),
            Ans { version: (3, 1), ..ok() },
            Ans { suite: [0xcc, 0x13], ..ok() },
            Ans { suite: [0xcc, 0xa9], ..ok() },
            Ans { comp: 1, ..ok() },
            Ans { curve: 24, ..ok() },
            Ans { curve: 22, ..ok() },
        ]
        .iter()
        .enumerate()
        {
            c.case(&format!("around/{}/{}", i, k), || go(&g, a, k == 0, 1 + i % 40));
        }
    });
    let all = shapes();
    c.bound(format!("{} further shapes of servers x all minor versions, second suite bytes, compression methods, curve types and low curve bytes", all.len()));
    c.par(all.len() * 16, |ij| {
        let ((name, g), part) = (&all[ij / 16], ij % 16);
        // long certificates cost time and add nothing to refusals before them
        for v in 0..16u8 {
            let v = v * 16 + part as u8;
            let one = |what: &str, a: Ans, legal: bool| {
                c.case(&format!("shape/{}/{}/{}", name, what, v), || go(g, &a, legal, 1 << 14));
            };
            one("minor", Ans { version: (3, v), ..ok() }, v == 3);
            one("suite", Ans { suite: [0xcc, v], ..ok() }, [0xcc, v] == SUITE);
            one("compression", Ans { comp: v, ..ok() }, v == 0);
            one("curve-type", Ans { curve_type: v, ..ok() }, v == 3);
            one("curve", Ans { curve: v as u16, ..ok() }, v == 23);
        }
    });
    // ---- the offer
    let n = if th { 4096 } else { 512 };
    c.bound(format!("ClientHello of {} random streams, among them all-zero and all-one randoms, parsed strictly", n));
    c.par(n, |i| {
        c.case(&format!("hello/{}", i), || {
            let run = world(cfg.clone(), |_| Feed::Eof);
            let sc = match i {
                0 => vec![0; 64],
                1 => vec![0xff; 64],
                _ => vec![],
            };
            let r = run.connect_scripted(sc, i as u64);
            if r.is_ok() {
                return Err("established with a server that sent nothing".into());
            }
            run.sync();
            run.problems()?;
            let s = run.server.borrow();
            if s.msgs.len() != 1 || s.records.len() != 1 {
                return Err("the client sends something other than one ClientHello first".into());
            }
            Ok("strict ClientHello".into())
        });
    });
    c.finish()
}
