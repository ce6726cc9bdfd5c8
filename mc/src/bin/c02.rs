//! C02: which peer message sequences establish a connection.
use mc::drive::*;
use mc::report::Ctx;
use mc::reftls::*;
use mc::seq::*;

struct Mode {
    name: &'static str,
    coalesce: bool,
    max_record: usize,
}

/// one sequence under the reference automaton; whether the client wants more goes to `more`
fn one(cfg: &Cfg, m: &Mode, seq: &[Sym], more: &std::cell::Cell<bool>) -> Result<String, String> {
    let o = play(cfg.clone(), Tape { seq: seq.to_vec(), coalesce: m.coalesce, max_record: m.max_record, end: eof });
    let v = judge(seq);
    more.set(matches!(o.seen, Seen::WantsMore(_)));
    match (v, &o.seen) {
        (Verdict::Continue, Seen::WantsMore(_)) => Ok("conforming prefix: waits for the rest".to_string()),
        (Verdict::Continue, Seen::Established) => Err("the connection is established before the server has finished".into()),
        (Verdict::Continue, Seen::Failed(k, d)) => Err(format!("a conforming prefix is refused: {} {}", k, d)),
        (Verdict::Complete, Seen::Established) => {
            o.run.problems()?;
            Ok("complete: established".into())
        }
        (Verdict::Complete, s) => Err(format!("the complete conforming sequence ends in {:?}", s)),
        (_, Seen::Established) => Err("the connection is established by a non-conforming message sequence".into()),
        (_, Seen::Failed(k, _)) => Ok(format!("deviation refused: {}", k)),
        (Verdict::RefuseOrWait, Seen::WantsMore(_)) => Ok("deviation not yet decided".into()),
        (Verdict::Refuse, Seen::WantsMore(_)) => Err("the client swallows a message that is not allowed here and waits for more".into()),
    }
}

fn visit(c: &Ctx, m: &Mode, cfg: &Cfg, al: &[Sym], seq: &mut Vec<Sym>, depth: usize, wild: usize) {
    let mut more = false;
    let cell = std::cell::Cell::new(false);
    let key = format!("{}/{:?}", m.name, seq);
    if c.stopped() {
        return;
    }
    c.add_traces(0);
    let run = || one(cfg, m, seq, &cell);
    let ok = c.case(&key, run);
    if c.replaying() {
        // the case may have been filtered out: decide how to go on anyway
        if c.wants_prefix(&key[..key.len() - 1]) {
            let _ = mc::report::guard(run);
        }
    }
    if ok {
        more = cell.get();
    }
    if !more || depth == 0 {
        return;
    }
    let dev = judge(seq) != Verdict::Continue;
    if dev && wild == 0 {
        return;
    }
    for &s in al {
        if synonym(seq, s) {
            continue;
        }
        seq.push(s);
        visit(c, m, cfg, al, seq, depth - 1, if dev { wild - 1 } else { wild });
        seq.pop();
    }
}

fn main() {
    let c = Ctx::new("C02", "model_checking");
    let al = alphabet();
    let th = c.thorough();
    let modes = [
        Mode { name: "records", coalesce: false, max_record: 1 << 14 },
        Mode { name: "coalesced", coalesce: true, max_record: 1 << 14 },
        Mode { name: "fragmented", coalesce: false, max_record: 7 },
        Mode { name: "tiny", coalesce: true, max_record: 1 },
    ];
    let depth = 9;
    let wild = if th { 3 } else { 2 };
    c.rule(
        "Depth-first exploration of all peer message sequences over the alphabet: a node is a sequence, expanded with every symbol whenever the real client \
         still wants more input; a node where the client has decided (error or established) is a leaf. Oracle: the six-message reference automaton. The peer adapts: \
         it holds the keys and can compute Finished over the conforming transcript or over exactly what it sent.",
    );
    c.bound(format!("{} symbols, sequences up to {} messages; after a deviation the client has not yet decided on, up to {} further arbitrary messages; 4 record packings", al.len(), depth, wild));
    let cfg = default_cfg();
    let n = al.len();
    // coalescing changes what arrives together, so there the whole sequence is sent even though a
    // shorter one already decided: those nodes are enumerated as legal prefix x two arbitrary symbols
    c.par(modes.len() * n, |i| {
        let m = &modes[i / n];
        if synonym(&[], al[i % n]) {
            return;
        }
        let mut seq = vec![al[i % n]];
        visit(&c, m, &cfg, &al, &mut seq, depth - 1, wild);
    });
    c.par(2 * 6 * n, |i| {
        let m = &modes[[1, 3][i / (6 * n)]];
        let k = (i / n) % 6;
        let a = al[i % n];
        for &b in &al {
            let mut seq: Vec<Sym> = LEGAL[..k].to_vec();
            seq.push(a);
            seq.push(b);
            let v = judge(&seq);
            c.case(&format!("pair/{}/{:?}", m.name, seq), || {
                let o = play(cfg.clone(), Tape { seq: seq.clone(), coalesce: true, max_record: m.max_record, end: eof });
                match (v, &o.seen) {
                    (Verdict::Complete, Seen::Established) => Ok("complete: established".into()),
                    (Verdict::Complete, s) => Err(format!("the complete conforming sequence ends in {:?}", s)),
                    (_, Seen::Established) => Err("the connection is established by a non-conforming message sequence".into()),
                    (Verdict::Continue, Seen::Failed(k, d)) => Err(format!("a conforming prefix is refused: {} {}", k, d)),
                    (Verdict::Refuse, Seen::WantsMore(_)) => Err("the client swallows a message that is not allowed here".into()),
                    _ => Ok("deviation refused".into()),
                }
            });
        }
    });
    // the same automaton for servers of every shape
    let all = shapes();
    c.bound(format!("{} further shapes of servers x every first deviation after every legal prefix and the legal sequences x 2 packings", all.len()));
    c.par(all.len() * n, |i| {
        let ((name, g), s) = (&all[i / n], al[i % n]);
        for k in 0..6 {
            let mut seq: Vec<Sym> = LEGAL[..k].to_vec();
            if synonym(&seq, s) {
                continue;
            }
            seq.push(s);
            for m in &modes[..2] {
                c.case(&format!("shape/{}/{}/{:?}", name, m.name, seq), || one(g, m, &seq, &std::cell::Cell::new(false)));
            }
        }
    });
    c.finish()
}
