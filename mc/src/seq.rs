//! Peer message sequences: symbols, how they are put on the wire, and the reference state machine.
use crate::drive::*;
use crate::net::*;
use crate::reftls::*;

#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    /// handshake message of this type with a well-formed body, protected iff the server has sent CCS
    Hs(u8),
    /// Finished computed over the conforming transcript / over what was really sent
    Fin,
    FinActual,
    /// the same, sent unprotected after CCS, or protected before it
    FinWrongProt,
    FinActualWrongProt,
    /// protected record of the natural content, unprotected after CCS
    HsWrongProt(u8),
    Ccs,
    CcsPlain,
    CcsBad0,
    CcsLong,
    CcsEmpty,
    HsEmpty,
    AlertWarnClose,
    AlertWarn(u8),
    AlertFatal(u8),
    AlertShort,
    AlertEmpty,
    AlertUnknown,
    App,
    AppEmpty,
    AppPlain,
    Unknown(u8),
}
use Sym::*;

pub const LEGAL: [Sym; 6] = [Hs(2), Hs(11), Hs(12), Hs(14), Ccs, Fin];

pub fn alphabet() -> Vec<Sym> {
    let mut v: Vec<Sym> = [0u8, 1, 2, 3, 4, 11, 12, 13, 14, 15, 16, 21, 22, 24, 255].iter().map(|&t| Hs(t)).collect();
    v.extend([Fin, FinActual, FinWrongProt, FinActualWrongProt]);
    v.extend([2u8, 11, 12, 14, 0].iter().map(|&t| HsWrongProt(t)));
    v.extend([Ccs, CcsPlain, CcsBad0, CcsLong, CcsEmpty, HsEmpty]);
    v.extend([AlertWarnClose, AlertWarn(90), AlertWarn(100), AlertFatal(40), AlertFatal(0), AlertFatal(80), AlertShort, AlertEmpty, AlertUnknown]);
    v.extend([App, AppEmpty, AppPlain, Unknown(24), Unknown(0), Unknown(255)]);
    v
}

pub fn body_of(s: &Server, t: u8) -> Vec<u8> {
    match t {
        0 | 14 => hs(t, &[]),
        1 => s.msgs.get(0).cloned().unwrap_or(hs(1, &[])),
        2 => s.cfg.server_hello(),
        3 => hs(3, &[3, 3, 0]),
        4 => hs(4, &[0, 0, 0, 60, 0, 4, 1, 2, 3, 4]),
        11 => s.cfg.certificate(),
        12 => s.cfg.ske(),
        13 => hs(13, &[1, 1, 0, 2, 4, 1, 0, 0]),
        15 => hs(15, &[4, 1, 0, 4, 9, 9, 9, 9]),
        16 => {
            let mut b = vec![s.cfg.public.len() as u8];
            b.extend_from_slice(&s.cfg.public);
            hs(16, &b)
        }
        22 => hs(22, &[1, 0, 0, 1, 7]),
        _ => hs(t, &[1, 2, 3]),
    }
}

pub struct Tape {
    pub seq: Vec<Sym>,
    /// put adjacent unprotected handshake messages into one record
    pub coalesce: bool,
    /// send everything that needs no keys in one go
    pub max_record: usize,
    pub end: fn() -> Feed,
}

#[derive(Debug, Clone)]
pub enum Seen {
    Established,
    /// decided on an error before the sequence was used up
    Failed(String, String),
    /// wanted more after the whole sequence; the error it returns when the stream then ends
    WantsMore(String),
}

pub struct Outcome {
    pub seen: Seen,
    pub run: Run,
}

/// Run the client against this sequence.
pub fn play(cfg: Cfg, tape: Tape) -> Outcome {
    play_with(cfg, tape, |_| ())
}

pub fn play_with(cfg: Cfg, tape: Tape, setup: impl FnOnce(&Run)) -> Outcome {
    let mut at = 0;
    let mut ccs = false;
    let mut actual: Vec<u8> = Vec::new();
    let Tape { seq, coalesce, max_record, end } = tape;
    let exhausted = std::rc::Rc::new(std::cell::Cell::new(false));
    let ex2 = exhausted.clone();
    let run = world(cfg, move |s| {
        if at >= seq.len() {
            ex2.set(true);
            return end();
        }
        let mut out = Vec::new();
        let mut pending: Vec<u8> = Vec::new();
        loop {
            if at >= seq.len() {
                break;
            }
            let sym = seq[at];
            let prot = ccs && s.keys.is_some();
            let plain_hs = matches!(sym, Hs(_) | Fin | FinActual) && !prot;
            if !pending.is_empty() && !plain_hs {
                break;
            }
            at += 1;
            let zero = hs(20, &[0; 12]);
            let mut put = |s: &mut Server, ty: u8, body: &[u8], protect: bool| {
                // a message longer than a record takes several (sealed or not they fit)
                for part in body.chunks(16_000).chain(body.is_empty().then_some(body)) {
                    if protect && s.keys.is_some() {
                        let r = s.seal(ty, part);
                        out.extend(r);
                    } else {
                        out.extend(rec(ty, part));
                    }
                }
            };
            match sym {
                Hs(_) | Fin | FinActual => {
                    let m = match sym {
                        Hs(t) => body_of(s, t),
                        Fin => s.finished().unwrap_or(zero),
                        _ => {
                            s.flight_override = Some(actual.clone());
                            let m = s.finished().unwrap_or(zero);
                            s.flight_override = None;
                            m
                        }
                    };
                    if let Hs(_) = sym {
                        if !matches!(sym, Hs(0)) {
                            actual.extend_from_slice(&m);
                        }
                    }
                    if prot {
                        put(s, HS, &m, true);
                    } else {
                        pending.extend_from_slice(&m);
                    }
                }
                FinWrongProt => {
                    let m = s.finished().unwrap_or(zero);
                    put(s, HS, &m, !prot);
                }
                FinActualWrongProt => {
                    s.flight_override = Some(actual.clone());
                    let m = s.finished().unwrap_or(zero);
                    s.flight_override = None;
                    put(s, HS, &m, !prot);
                }
                HsWrongProt(t) => {
                    let m = body_of(s, t);
                    put(s, HS, &m, !prot);
                }
                Ccs => {
                    put(s, CCS, &[1], prot);
                    if !ccs {
                        ccs = true;
                        s.seq = 0;
                    }
                }
                CcsPlain => {
                    put(s, CCS, &[1], false);
                    if !ccs {
                        ccs = true;
                        s.seq = 0;
                    }
                }
                CcsBad0 => put(s, CCS, &[0], prot),
                CcsLong => put(s, CCS, &[1, 1], prot),
                CcsEmpty => put(s, CCS, &[], prot),
                HsEmpty => put(s, HS, &[], prot),
                AlertWarnClose => put(s, ALERT, &[1, 0], prot),
                AlertWarn(d) => put(s, ALERT, &[1, d], prot),
                AlertFatal(d) => put(s, ALERT, &[2, d], prot),
                AlertShort => put(s, ALERT, &[2], prot),
                AlertEmpty => put(s, ALERT, &[], prot),
                AlertUnknown => put(s, ALERT, &[3, 199], prot),
                App => put(s, APP, b"data", prot),
                AppEmpty => put(s, APP, &[], prot),
                AppPlain => put(s, APP, b"data", false),
                Unknown(t) => put(s, t, &[0, 1, 2, 3], prot),
            }
            if !coalesce || pending.is_empty() {
                break;
            }
        }
        if !pending.is_empty() {
            out.extend(recs(HS, &pending, max_record));
        }
        Feed::Bytes(out)
    });
    run.server.borrow_mut().check_finished = false;
    setup(&run);
    let r = run.connect();
    let seen = match r {
        Ok(_) => Seen::Established,
        Err(e) if exhausted.get() => Seen::WantsMore(kind(&e)),
        Err(e) => Seen::Failed(kind(&e), e.desc),
    };
    run.sync();
    Outcome { seen, run }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    /// conforming so far, more to come
    Continue,
    /// complete and conforming
    Complete,
    /// this sequence must not establish a connection; an error must have been returned
    Refuse,
    /// must not establish; the last deviation may look like the start of a longer message
    RefuseOrWait,
}

/// Would this symbol put the same bytes on the wire as another one of the alphabet?
pub fn synonym(prefix: &[Sym], s: Sym) -> bool {
    let keys = prefix.contains(&Hs(14));
    match s {
        HsWrongProt(_) | FinWrongProt | FinActualWrongProt => !keys,
        CcsPlain | AppPlain => !(keys && prefix.contains(&Ccs)),
        _ => false,
    }
}

/// The reference state machine.
pub fn judge(seq: &[Sym]) -> Verdict {
    let mut stage = 0;
    for (i, &s) in seq.iter().enumerate() {
        if stage == 6 {
            return Verdict::Complete;
        }
        // before the key exchange there is no protection to get wrong
        let s = match s {
            HsWrongProt(t) if stage < 4 => Hs(t),
            s => s,
        };
        if s == LEGAL[stage] || (stage == 5 && s == FinActual && seq[..i].iter().all(|x| LEGAL.contains(x) || *x == CcsPlain)) || (stage == 4 && s == CcsPlain) {
            stage += 1;
            continue;
        }
        if s == Hs(0) && stage != 4 && stage != 5 {
            // HelloRequest while negotiating may be ignored (RFC 5246 7.4.1.1) or refused
            return Verdict::RefuseOrWait;
        }
        if matches!(s, FinWrongProt | FinActualWrongProt | HsWrongProt(_)) && stage >= 4 {
            return Verdict::RefuseOrWait;
        }
        return Verdict::Refuse;
    }
    if stage == 6 {
        Verdict::Complete
    } else {
        Verdict::Continue
    }
}
