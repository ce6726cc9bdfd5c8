//! C14: a failed handshake is reported as the right error and one matching fatal alert.
use husk::tls_result::{TlsError, TlsErrorKind};
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use mc::schema::{self, Bad};
use mc::seq::{alphabet, judge, play, play_with, synonym, Seen, Sym, Tape, Verdict, LEGAL};

use std::io::ErrorKind;

type Kinds = &'static [&'static str];

const UNEXPECTED: &str = "UnexpectedMessage";
const MAC: &str = "BadRecordMac";
const OVERFLOW: &str = "RecordOverflow";
const ILLEGAL: &str = "IllegalParameter";
const DECODE: &str = "DecodeError";
const DECRYPT: &str = "DecryptError";
const ALERTED: &str = "AlertReceived";
const IO: &str = "IoFailure";

fn alert_of(kind: &str) -> Option<u8> {
    Some(match kind {
        UNEXPECTED => 10,
        MAC => 20,
        OVERFLOW => 22,
        ILLEGAL => 47,
        DECODE => 50,
        DECRYPT => 51,
        "InternalError" => 80,
        ALERTED => 0,
        _ => return None,
    })
}

/// What is on the wire after the constructor returned this error.
fn last_words(run: &Run, kind: &str) -> Result<(), String> {
    run.sync();
    let w = run.world.borrow();
    let s = run.server.borrow();
    let tail = s.tail_len(&w.out);
    if tail > 0 {
        return Err(format!("{}: the client leaves {} bytes of an incomplete record behind", kind, tail));
    }
    if let Some(p) = s.problems.iter().find(|p| p.contains("does not open") || p.contains("alert of") || p.contains("unknown client record")) {
        return Err(format!("{}: {}", kind, p));
    }
    let al = s.alerts();
    match alert_of(kind) {
        None => {
            if !al.is_empty() {
                return Err(format!("an alert {:?} is sent although the error is {}", al[0].1, kind));
            }
        }
        Some(d) => {
            if al.len() != 1 {
                return Err(format!("the error is {} and {} alerts were sent instead of one", kind, al.len()));
            }
            let (i, body, prot) = &al[0];
            if *i + 1 != s.records.len() {
                return Err(format!("the error is {} and the alert is not the last record", kind));
            }
            if body[..] != [2, d] {
                return Err(format!("the error is {} and the alert is {:?} instead of {:?}", kind, body, [2, d]));
            }
            if *prot != s.ccs_seen {
                return Err("the alert is not protected as the client's other records are".into());
            }
        }
    }
    Ok(())
}

fn verdict(run: &Run, got: Result<(), String>, allowed: &[&str]) -> Result<String, String> {
    match got {
        Ok(()) => Err("the handshake is established".into()),
        Err(k) => {
            if !allowed.contains(&&k[..]) {
                return Err(format!("the error is {} instead of {}", k, allowed.join(" or ")));
            }
            last_words(run, &k)?;
            Ok(k)
        }
    }
}

/// Which kinds may report symbol `s` when `n` legal messages came before?
fn kinds_of(n: usize, s: Sym) -> Kinds {
    use Sym::*;
    let keyed = n >= 4;
    let prot = n >= 5;
    match s {
        Hs(_) | Fin | FinActual => &[UNEXPECTED],
        FinWrongProt | FinActualWrongProt | HsWrongProt(_) => {
            if prot {
                &[MAC]
            } else if keyed {
                // ciphertext taken for a handshake message
                &[UNEXPECTED, DECODE, IO]
            } else {
                &[UNEXPECTED]
            }
        }
        Ccs => &[UNEXPECTED],
        CcsPlain | AppPlain => {
            if prot {
                &[MAC]
            } else {
                &[UNEXPECTED]
            }
        }
        CcsBad0 | CcsLong | CcsEmpty | AlertShort | AlertEmpty | AlertUnknown => &[UNEXPECTED, DECODE, ILLEGAL],
        HsEmpty => &[UNEXPECTED, DECODE],
        AlertWarnClose | AlertWarn(_) | AlertFatal(_) => {
            if n == 4 {
                &[ALERTED, UNEXPECTED]
            } else {
                &[ALERTED]
            }
        }
        App | AppEmpty | Unknown(_) => &[UNEXPECTED],
    }
}

fn deviation(cfg: Cfg, q: &[Sym], coalesce: bool, max_record: usize) -> Result<String, String> {
    let o = play(cfg, Tape { seq: q.to_vec(), coalesce, max_record, end: eof });
    let s = q[q.len() - 1];
    let mut allowed = kinds_of(q.len() - 1, s).to_vec();
    if judge(q) == Verdict::RefuseOrWait && !allowed.contains(&IO) && s == Sym::Hs(0) {
        allowed.push(IO);
    }
    let got = match o.seen {
        Seen::Established => Ok(()),
        Seen::Failed(k, _) | Seen::WantsMore(k) => Err(k),
    };
    verdict(&o.run, got, &allowed)
}

/// The server sends this instead of its flight (in these records) and conforms otherwise.
fn flight(cfg: Cfg, wire: Vec<u8>, transcript: Vec<u8>) -> (Run, Result<(), String>) {
    let mut st = 0;
    let run = world(cfg, move |s| {
        st += 1;
        match st {
            1 => Feed::Bytes(wire.clone()),
            2 => match s.finished() {
                Some(m) if s.keys.is_some() => {
                    let mut o = rec(CCS, &[1]);
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                _ => Feed::Eof,
            },
            _ => Feed::Eof,
        }
    });
    {
        let mut s = run.server.borrow_mut();
        s.flight_override = Some(transcript);
        s.check_finished = false;
    }
    let r = run.connect().map(|_| ()).map_err(|e| kind(&e));
    (run, r)
}

/// Message `i` of the flight is replaced by `m` (its header length fits).
fn replaced(cfg: &Cfg, i: usize, m: &[u8]) -> Result<String, String> {
    let msgs = [cfg.server_hello(), cfg.certificate(), cfg.ske(), cfg.shd()];
    if msgs[i] == m {
        return Ok("unchanged".into());
    }
    let mut wire = Vec::new();
    let mut honest = Vec::new();
    for (j, x) in msgs.iter().enumerate() {
        wire.extend(recs(HS, if i == j { m } else { x }, 1 << 14));
        honest.extend_from_slice(x);
    }
    let expected_ty = [2u8, 11, 12, 14][i];
    let ty = m[0];
    let b = &m[4..];
    let mut allowed: Vec<&str> = vec![];
    // values that are illegal wherever they can be read
    let mut illegal = false;
    if ty == 2 {
        if b.len() >= 2 && b[..2] != [3, 3] {
            illegal = true;
        }
        if b.len() >= 35 && b.len() >= 38 + b[34] as usize {
            let p = 35 + b[34] as usize;
            if b[p..p + 2] != SUITE || b[p + 2] != 0 {
                illegal = true;
            }
        }
    }
    if ty == 12 && expected_ty == 12 {
        if b.len() >= 3 && b[..3] != [3, 0, 23] {
            illegal = true;
        }
        if b.len() >= 4 && b.len() >= 4 + b[3] as usize && decode_pt(&b[4..4 + b[3] as usize]).is_none() {
            illegal = true;
        }
    }
    let sch = if ty == 12 { Some(schema::ske()) } else { schema::body(ty) };
    match sch {
        None => allowed.push(UNEXPECTED),
        Some(s) => match schema::exact(&s, b) {
            Err(Bad::Structure) => {
                allowed.push(DECODE);
                if ty == 12 && expected_ty != 12 {
                    allowed.push(UNEXPECTED);
                }
            }
            Err(Bad::Value) => allowed.extend([DECODE, ILLEGAL]),
            Ok(()) => {}
        },
    }
    if ty != expected_ty {
        allowed.push(UNEXPECTED);
    } else if illegal {
        allowed.push(ILLEGAL);
    } else if ty == 12 && allowed == [DECODE, ILLEGAL] {
        // an unknown signature algorithm: the signature is nobody's business here
        allowed.push(DECRYPT);
    }
    if ty == 2 && !illegal && allowed == [DECODE, ILLEGAL] {
        // unknown values in extensions
        allowed.push(DECRYPT);
    }
    let mut cfg = cfg.clone();
    if allowed.is_empty() {
        // nothing wrong with it by itself: the transcripts differ
        allowed.push(DECRYPT);
        if ty == 12 {
            let n = b[3] as usize;
            if b[4..4 + n] != cfg.public[..] {
                // another valid key share: then the keys differ as well
                allowed.push(MAC);
            }
        }
    }
    if i == 0 && m.len() >= 38 {
        cfg.random = m[6..38].try_into().unwrap();
    }
    let (run, got) = flight(cfg, wire, honest);
    verdict(&run, got, &allowed)
}

fn main() {
    let c = Ctx::new("C14", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every enumerated way the handshake can fail is executed: each first deviation of the message alphabet after each legal prefix, byte values, truncations and extensions of \
         every server message, inner length fields, record faults at every stage, wrong Finished messages, and transport failures at every byte. An independent strict decoder decides \
         which error kinds are right; the reference server opens what the client sent. Oracle: right kind, exactly one matching fatal alert as last record, protected iff the client \
         has switched; no alert and not a byte more after a transport failure.",
    );
    let cfg = default_cfg();

    // ---- A. message sequences
    let mut jobs = vec![];
    for n in 0..6 {
        for &s in &alphabet() {
            let mut q: Vec<Sym> = LEGAL[..n].to_vec();
            if synonym(&q, s) {
                continue;
            }
            q.push(s);
            if matches!(judge(&q), Verdict::Refuse | Verdict::RefuseOrWait) {
                jobs.push(q);
            }
        }
    }
    let packs = [(false, 1 << 14), (true, 1 << 14), (false, 9), (true, 1)];
    c.par(jobs.len() * packs.len(), |i| {
        let q = &jobs[i / packs.len()];
        let (co, mr) = packs[i % packs.len()];
        c.case(&format!("seq/{}/{}/{:?}", co, mr, q), || deviation(default_cfg(), q, co, mr));
    });
    let all = shapes();
    c.par(jobs.len() * all.len(), |i| {
        let (q, (n, g)) = (&jobs[i / all.len()], &all[i % all.len()]);
        c.case(&format!("seq/{}/{:?}", n, q), || deviation(g.clone(), q, false, 1 << 14));
    });
    c.bound(format!("the same deviations with {} further shapes of servers", all.len()));
    c.bound(format!("{} first deviations x 4 packings", jobs.len()));

    // the alert itself meets a failing transport: it is not said twice, nor in pieces that are none
    c.par(jobs.len(), |i| {
        let q = &jobs[i];
        let ideal = play(default_cfg(), Tape { seq: q.to_vec(), coalesce: false, max_record: 1 << 14, end: eof });
        if !matches!(&ideal.seen, Seen::Failed(k, _) if k != IO) {
            return;
        }
        let full = ideal.run.world.borrow().out.clone();
        let start = {
            let mut at = 0;
            for r in split_records(&full).0.iter().rev().take(1) {
                at = full.len() - r.len();
            }
            at
        };
        let with = |f: &dyn Fn(&mut World)| -> Vec<u8> {
            let o = play_with(default_cfg(), Tape { seq: q.to_vec(), coalesce: false, max_record: 1 << 14, end: eof }, |r| f(&mut r.world.borrow_mut()));
            let w = o.run.world.borrow();
            w.out.clone()
        };
        for times in [1, u64::MAX] {
            for k in [ErrorKind::WouldBlock, ErrorKind::BrokenPipe] {
                c.case(&format!("last/flush/{}/{:?}/{:?}", times, k, q), || {
                    let out = with(&|w| {
                        w.flush_fault_at = Some(full.len() as u64);
                        w.flush_fault = k;
                        w.flush_faults = times;
                    });
                    if out != full {
                        return Err(format!("the flush after the alert fails and {} more bytes are sent", out.len() as i64 - full.len() as i64));
                    }
                    Ok("one alert".into())
                });
            }
        }
        for at in start..full.len() {
            for f in [WFault::Zero, WFault::Err(ErrorKind::WouldBlock), WFault::Err(ErrorKind::TimedOut)] {
                c.case(&format!("last/write/{}/{:?}/{:?}", at - start, f, q), || {
                    let out = with(&|w| w.fault_at_once(at as u64, f));
                    // the rest of the same alert may still follow; nothing else
                    if out != full[..at] && out != full {
                        return Err(format!("the transport fails {} bytes into the alert and the client sends {} bytes that do not continue it", at - start, out.len() as i64 - at as i64));
                    }
                    Ok("at most one alert".into())
                });
            }
        }
    });
    c.bound("every such deviation with a transport that fails at each byte of the alert (3 faults) or when it is flushed (once, always)");

    // ---- B. contents of the server's messages
    let mut cfgs = vec![cfg.clone()];
    let mut g = cfg.clone();
    g.ext = Some(ext_block(&[(10, vec![0, 2, 0, 23]), (11, vec![2, 1, 0]), (13, vec![0, 2, 4, 1]), (0xff01, vec![0])]));
    g.session_id = vec![];
    g.certs = vec![vec![1], vec![2; 9]];
    cfgs.push(g);
    let mut jobs: Vec<(usize, usize, String, Vec<u8>)> = vec![];
    for (ci, g) in cfgs.iter().enumerate() {
        let msgs = [g.server_hello(), g.certificate(), g.ske(), g.shd()];
        for (mi, m) in msgs.iter().enumerate() {
            let b = &m[4..];
            for i in 0..b.len() {
                let heavy = (mi == 0 && (2..34).contains(&i)) || (mi == 2 && i >= 20 && i < 60);
                let vals: Vec<u8> = if th {
                    (0..=255).collect()
                } else if heavy {
                    vec![b[i] ^ 1]
                } else if b.len() < 60 || i < 3 || i >= 34 {
                    let mut v: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 7, 20, 32, 33, 127, 128, 254, 255];
                    v.extend([b[i] ^ 1, b[i] ^ 2, b[i] ^ 4, b[i] ^ 8, b[i] ^ 128, b[i].wrapping_add(1), b[i].wrapping_sub(1)]);
                    v.sort();
                    v.dedup();
                    v
                } else {
                    vec![b[i] ^ 1, b[i] ^ 128, 0, 255]
                };
                for v in vals {
                    let mut x = b.to_vec();
                    if x[i] == v {
                        continue;
                    }
                    x[i] = v;
                    jobs.push((ci, mi, format!("byte/{}/{:02x}", i, v), hs(m[0], &x)));
                }
            }
            for n in 0..b.len() {
                jobs.push((ci, mi, format!("cut/{}", n), hs(m[0], &b[..n])));
            }
            for n in 1..=4usize {
                for v in [0u8, 1, 255] {
                    let mut x = b.to_vec();
                    x.extend(std::iter::repeat(v).take(n));
                    jobs.push((ci, mi, format!("extra/{}/{}", n, v), hs(m[0], &x)));
                }
            }
            for i in 0..=b.len() {
                for v in [0u8, 1] {
                    if !th && (mi == 2 && i > 8 && i < 66 || mi == 0 && i > 4 && i < 34) {
                        continue;
                    }
                    let mut x = b.to_vec();
                    x.insert(i, v);
                    jobs.push((ci, mi, format!("ins/{}/{}", i, v), hs(m[0], &x)));
                }
            }
            for t in 0..=255u8 {
                if t != m[0] {
                    jobs.push((ci, mi, format!("type/{}", t), hs(t, b)));
                }
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (ci, mi, k, m) = &jobs[i];
        c.case(&format!("content/{}/{}/{}", ci, mi, k), || replaced(&cfgs[*ci], *mi, m));
    });
    c.bound(format!("{} altered server messages (byte values, every truncation, additions, insertions, every type) for 2 server configurations", jobs.len()));

    c.par(all.len() * 4, |i| {
        let ((n, g), mi) = (&all[i / 4], i % 4);
        let m = &[g.server_hello(), g.certificate(), g.ske(), g.shd()][mi];
        let b = &m[4..];
        for at in (0..b.len()).filter(|&at| at < 90 || at + 20 > b.len()) {
            for d in [1u8, 0x80] {
                c.case(&format!("content/{}/{}/byte/{}/{:02x}", n, mi, at, d), || {
                    let mut x = b.to_vec();
                    x[at] ^= d;
                    replaced(g, mi, &hs(m[0], &x))
                });
            }
            c.case(&format!("content/{}/{}/cut/{}", n, mi, at), || replaced(g, mi, &hs(m[0], &b[..at])));
        }
        for k in 1..=2usize {
            c.case(&format!("content/{}/{}/extra/{}", n, mi, k), || replaced(g, mi, &hs(m[0], &[b, &[0; 2][..k]].concat())));
        }
        for t in [0u8, 1, 2, 4, 11, 12, 13, 14, 15, 16, 20, 22] {
            if t != m[0] {
                c.case(&format!("content/{}/{}/type/{}", n, mi, t), || replaced(g, mi, &hs(t, b)));
            }
        }
    });

    // header lengths that do not fit: the stream shifts
    let msgs = [cfg.server_hello(), cfg.certificate(), cfg.ske(), cfg.shd()];
    let mut jobs = vec![];
    for mi in 0..4 {
        for d in (-8i64..=80).filter(|&d| d != 0) {
            let n = msgs[mi].len() as i64 - 4 + d;
            if n >= 0 {
                jobs.push((mi, n as usize));
            }
        }
        jobs.extend([(mi, 1 << 14), (mi, 1 << 20), (mi, (1 << 24) - 1)]);
    }
    c.par(jobs.len(), |i| {
        let (mi, n) = jobs[i];
        c.case(&format!("length/{}/{}", mi, n), || {
            let mut s = Vec::new();
            for (j, m) in msgs.iter().enumerate() {
                let mut m = m.clone();
                if j == mi {
                    m[1] = (n >> 16) as u8;
                    m[2] = (n >> 8) as u8;
                    m[3] = n as u8;
                }
                s.extend(m);
            }
            let rest: usize = msgs[mi + 1..].iter().map(|m| m.len()).sum();
            let longer = n > msgs[mi].len() - 4;
            let waits = n > msgs[mi].len() - 4 + rest;
            let (run, got) = flight(cfg.clone(), recs(HS, &s, 1 << 14), s);
            // a ServerKeyExchange swallowing the rest is found out when it is taken apart; a client that does so
            // only after ServerHelloDone may meet the end of the transport first
            let allowed: &[&str] = if waits {
                &[IO]
            } else if mi == 2 {
                &[DECODE, UNEXPECTED, ILLEGAL, IO]
            } else if longer {
                &[DECODE, UNEXPECTED]
            } else {
                &[DECODE, UNEXPECTED, ILLEGAL]
            };
            verdict(&run, got, allowed)
        });
    });
    c.bound(format!("{} handshake header lengths that do not fit", jobs.len()));

    // ---- C. records
    let mut jobs: Vec<(usize, u8, usize, bool)> = vec![];
    for n in 0..6usize {
        for ty in [HS, APP, ALERT, CCS] {
            for l in [(1 << 14) + 1, (1 << 14) + 17, (1 << 14) + 2048, (1 << 14) + 2049, 65535] {
                jobs.push((n, ty, l, false));
            }
            if n == 5 {
                for l in [(1usize << 14) + 1, (1 << 14) + 1000, (1 << 14) + 2032] {
                    jobs.push((n, ty, l, true));
                }
                for l in 0..16usize {
                    jobs.push((n, ty, l, false));
                }
                for l in [16usize, 17, 28, 32, 100, 1 << 14] {
                    jobs.push((n, ty, l, false));
                }
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (n, ty, l, sealed) = jobs[i];
        c.case(&format!("record/{}/{}/{}/{}", n, ty, l, sealed), || {
            let mut st = 0;
            let run = world(default_cfg(), move |s| {
                st += 1;
                if st <= n {
                    return Feed::Bytes(match st {
                        1 => rec(HS, &s.cfg.server_hello()),
                        2 => rec(HS, &s.cfg.certificate()),
                        3 => rec(HS, &s.cfg.ske()),
                        4 => rec(HS, &s.cfg.shd()),
                        _ => rec(CCS, &[1]),
                    });
                }
                if st == n + 1 {
                    let body = if ty == HS { hs(11, &pattern(1, l.max(4) - 4)) } else { pattern(1, l) };
                    let body = body[..l].to_vec();
                    return Feed::Bytes(if sealed { s.seal(ty, &body) } else { rec(ty, &body) });
                }
                Feed::Eof
            });
            let got = run.connect().map(|_| ()).map_err(|e| kind(&e));
            let allowed: &[&str] = if sealed {
                &[OVERFLOW]
            } else if n < 5 || l > (1 << 14) + 2048 {
                &[OVERFLOW]
            } else if l > (1 << 14) + 16 {
                // both too long and without a valid tag
                &[OVERFLOW, MAC]
            } else {
                &[MAC]
            };
            verdict(&run, got, allowed)
        });
    });
    c.bound(format!("{} records of illegal size or without a valid tag at every stage", jobs.len()));

    // ---- C2. another record inside a message
    let jobs: Vec<(usize, usize)> = {
        let l = [cfg.server_hello().len(), cfg.certificate().len(), cfg.ske().len(), cfg.shd().len(), 16];
        (0..5).flat_map(|i| (1..l[i]).map(move |k| (i, k))).collect()
    };
    c.bound(format!("each of the five server messages cut anywhere ({} places), and a record of another type before the rest", jobs.len()));
    c.par(jobs.len(), |j| {
        let (m, cut) = jobs[j];
        for (name, ty, body, allowed) in [
            ("ccs", CCS, vec![1u8], &[UNEXPECTED] as Kinds),
            ("data", APP, vec![1, 2, 3], &[UNEXPECTED]),
            ("close", ALERT, vec![1, 0], &[ALERTED, UNEXPECTED]),
            ("alert", ALERT, vec![2, 40], &[ALERTED, UNEXPECTED]),
            ("short-alert", ALERT, vec![2], &[UNEXPECTED, DECODE]),
            ("unknown", 25, vec![0], &[UNEXPECTED]),
        ] {
            c.case(&format!("inside/{}/{}/{}", m, cut, name), || {
                let body = body.clone();
                let mut st = 0;
                let run = world(default_cfg(), move |s| {
                    st += 1;
                    let part = |x: Vec<u8>| {
                        let mut o = rec(HS, &x[..cut]);
                        o.extend(rec(ty, &body));
                        o.extend(rec(HS, &x[cut..]));
                        o
                    };
                    let msgs = [s.cfg.server_hello(), s.cfg.certificate(), s.cfg.ske(), s.cfg.shd()];
                    match st {
                        1 => {
                            let mut o = vec![];
                            for (i, x) in msgs.into_iter().enumerate() {
                                if i == m {
                                    o.extend(part(x));
                                    break;
                                }
                                o.extend(rec(HS, &x));
                            }
                            Feed::Bytes(o)
                        }
                        2 if m == 4 => match s.finished() {
                            Some(x) => {
                                let mut o = rec(CCS, &[1]);
                                o.extend(s.seal(HS, &x[..cut]));
                                o.extend(s.seal(ty, &body));
                                o.extend(s.seal(HS, &x[cut..]));
                                Feed::Bytes(o)
                            }
                            None => Feed::Eof,
                        },
                        _ => Feed::Eof,
                    }
                });
                let got = run.connect().map(|_| ()).map_err(|e| kind(&e));
                verdict(&run, got, allowed)
            });
        }
    });

    // ---- D. the server Finished
    let mut jobs: Vec<(String, Kinds)> = vec![];
    for i in 0..12 {
        for b in 0..8 {
            jobs.push((format!("verify/{}/{}", i, b), &[DECRYPT]));
        }
    }
    for n in (0..40).filter(|n| *n != 12) {
        jobs.push((format!("len/{}", n), &[DECODE]));
    }
    for i in 0..37 * 8 {
        // every bit of the record from the type byte on: other types and lengths are other errors
        jobs.push((format!("bit/{}", i), if i < 8 { &[MAC, UNEXPECTED] } else if (24..40).contains(&i) { &[MAC, IO, OVERFLOW] } else { &[MAC] }));
    }
    for (k, a) in [("seq1", MAC), ("client-key", MAC), ("label", DECRYPT), ("early", DECRYPT)] {
        jobs.push((k.into(), if a == MAC { &[MAC] } else { &[DECRYPT] }));
    }
    c.par(jobs.len(), |i| {
        let (k, allowed) = &jobs[i];
        let part: Vec<String> = k.split('/').map(|x| x.to_string()).collect();
        c.case(&format!("finished/{}", k), || {
            let part = part.clone();
            let mut st = 0;
            let run = world(default_cfg(), move |s| {
                st += 1;
                match st {
                    1 => Feed::Bytes(recs(HS, &s.cfg.flight(), 1 << 14)),
                    2 => {
                        let mut m = match s.finished() {
                            Some(m) => m,
                            None => return Feed::Eof,
                        };
                        let mut o = rec(CCS, &[1]);
                        let n = |i: usize| part[i].parse::<usize>().unwrap();
                        o.extend(match &part[0][..] {
                            "verify" => {
                                m[4 + n(1)] ^= 1 << n(2);
                                s.seal(HS, &m)
                            }
                            "len" => {
                                let mut v = m[4..].to_vec();
                                v.resize(n(1), 7);
                                s.seal(HS, &hs(20, &v))
                            }
                            "bit" => {
                                let mut r = s.seal(HS, &m);
                                r[n(1) / 8] ^= 1 << (n(1) % 8);
                                r
                            }
                            "seq1" => {
                                let k = s.keys.clone().unwrap();
                                seal(&k.sw, &k.siv, 1, HS, &m)
                            }
                            "client-key" => {
                                let k = s.keys.clone().unwrap();
                                seal(&k.cw, &k.civ, 0, HS, &m)
                            }
                            "label" => {
                                let m = s.finished_labelled("client finished", true).unwrap();
                                s.seal(HS, &m)
                            }
                            _ => {
                                let m = s.finished_labelled("server finished", false).unwrap();
                                s.seal(HS, &m)
                            }
                        });
                        Feed::Bytes(o)
                    }
                    _ => Feed::Eof,
                }
            });
            let got = run.connect().map(|_| ()).map_err(|e| kind(&e));
            verdict(&run, got, allowed)
        });
    });
    c.bound(format!("{} wrong server Finished messages and records", jobs.len()));

    // ---- E. the transport
    let (rd, wr, ideal) = {
        let (run, _q, _e) = scripted_peer(default_cfg(), eof);
        let r = run.connect().is_ok();
        if !r {
            c.violate("transport", "the plain handshake fails".into());
        }
        let w = run.world.borrow();
        (w.delivered, w.out.len() as u64, w.out.clone())
    };
    let kinds = KINDS;
    let ideal = &ideal;
    c.par((rd + wr) as usize, |i| {
        let reads = (i as u64) < rd;
        let at = if reads { i as u64 } else { i as u64 - rd };
        for k in 0..kinds.len() + 1 {
            for perm in [true, false] {
                if reads && !perm {
                    continue;
                }
                c.case(&format!("transport/{}/{}/{}/{}", reads, at, k, perm), || {
                    let (run, _q, _e) = scripted_peer(default_cfg(), eof);
                    {
                        let mut w = run.world.borrow_mut();
                        if reads {
                            w.rp.end_at = Some((at, if k == 0 { None } else { Some(kinds[k - 1]) }));
                        } else {
                            w.wp.fault_at = vec![(at, if k == 0 { WFault::Zero } else { WFault::Err(kinds[k - 1]) }, perm)];
                        }
                    }
                    match run.connect() {
                        Ok(_) => return Err("established".into()),
                        Err(e) if kind(&e) != IO => return Err(format!("the error is {:?} instead of IoFailure", e.kind)),
                        Err(_) => {}
                    }
                    let w = run.world.borrow();
                    if !ideal.starts_with(&w.out) {
                        return Err("after the transport failed the client sends something that is not the rest of its handshake".into());
                    }
                    if !reads && w.out.len() as u64 != at {
                        return Err(format!("{} bytes are sent after the transport had failed at byte {}", w.out.len() as u64 - at, at));
                    }
                    drop(w);
                    if reads {
                        last_words(&run, IO)?;
                    }
                    Ok(IO.into())
                });
            }
        }
    });
    c.bound(format!("transport end, zero write and 22 error kinds at each of {} bytes read and {} written", rd, wr));

    // ---- F. the public alert function, for every kind
    for (n, k) in [
        TlsErrorKind::UnexpectedMessage,
        TlsErrorKind::BadRecordMac,
        TlsErrorKind::RecordOverflow,
        TlsErrorKind::IllegalParameter,
        TlsErrorKind::DecodeError,
        TlsErrorKind::DecryptError,
        TlsErrorKind::InternalError,
        TlsErrorKind::IoFailure,
        TlsErrorKind::AlertReceived,
    ]
    .into_iter()
    .enumerate()
    {
        c.case(&format!("send/{}", n), || {
            let mut e = establish(default_cfg(), stall)?;
            let r = e.c.send_tls_alert(TlsError { kind: k, desc: "x".into() });
            if r.kind != k {
                return Err(format!("send_tls_alert turns {:?} into {:?}", k, r.kind));
            }
            last_words(&e.run, &format!("{:?}", k))?;
            Ok(format!("{:?}", k))
        });
    }
    c.finish()
}
