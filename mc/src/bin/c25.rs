//! C25: two connections in one process against each of them alone.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::refcrypto::*;
use mc::report::{guard, Ctx};
use num_bigint::BigUint;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    W(usize),
    R(usize),
    Flush,
    Close,
    /// the next record from the server is tampered with
    Bad,
    /// the server sends this many bytes
    S(usize),
    /// the server says goodbye
    Bye,
}
use Op::*;

/// How the server behaves in the handshake.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Good,
    BadFinished,
    BadPoint,
    BadSuite,
    Silent,
    Cut,
    Alert,
}
use How::*;

#[derive(Clone, Debug)]
struct Prog {
    which: usize,
    how: How,
    ops: Vec<Op>,
}

fn cfg(which: usize) -> Cfg {
    let mut c = default_cfg();
    if which > 0 {
        c = c.with_d(BigUint::from(3u32 + which as u32));
        for (i, b) in c.random.iter_mut().enumerate() {
            *b ^= (which * 29 + i) as u8;
        }
        c.session_id = vec![which as u8; which % 33];
        c.certs = vec![vec![0x30, which as u8, 1]; 1 + which % 3];
        c.sig = vec![which as u8; 20 + which];
    }
    c
}

type Queue = Rc<RefCell<VecDeque<Feed>>>;

fn peer(p: &Prog) -> (Run, Queue) {
    let how = p.how;
    match how {
        Good => {
            let (run, q, _e) = scripted_peer(cfg(p.which), eof);
            (run, q)
        }
        _ => {
            let mut st = 0;
            let run = world(cfg(p.which), move |s| {
                st += 1;
                match (how, st) {
                    (Silent, _) => Feed::Eof,
                    (Alert, 1) => Feed::Bytes(rec(ALERT, &[2, 40])),
                    (Cut, 1) => {
                        let f = s.cfg.flight();
                        let n = f.len() * 2 / 3;
                        Feed::Bytes(recs(HS, &f[..n], 100))
                    }
                    (BadPoint, 1) => {
                        let mut f = s.cfg.server_hello();
                        f.extend(s.cfg.certificate());
                        let mut pt = encode_pt(&curve().g());
                        pt[64] ^= 1;
                        f.extend(s.cfg.ske_with(3, 23, &pt));
                        f.extend(s.cfg.shd());
                        Feed::Bytes(recs(HS, &f, 1 << 14))
                    }
                    (BadSuite, 1) => {
                        let mut m = s.cfg.server_hello();
                        let at = 4 + 2 + 32 + 1 + s.cfg.session_id.len();
                        m[at + 1] = 0xa9;
                        Feed::Bytes(rec(HS, &m))
                    }
                    (BadFinished, 1) => {
                        let f = s.cfg.flight();
                        Feed::Bytes(recs(HS, &f, 1 << 14))
                    }
                    (BadFinished, 2) => match s.finished() {
                        Some(mut m) => {
                            m[9] ^= 4;
                            let mut f = rec(CCS, &[1]);
                            f.extend(s.seal(HS, &m));
                            Feed::Bytes(f)
                        }
                        None => Feed::Eof,
                    },
                    _ => Feed::Eof,
                }
            });
            (run, Rc::default())
        }
    }
}

/// A connection that is driven step by step; everything observable goes into `log` and the wire.
struct Conn {
    run: Run,
    q: Queue,
    c: Option<Client>,
    log: Vec<String>,
    prog: Prog,
    at: usize,
    n: u8,
}

type Trace = (Vec<String>, Vec<u8>);

impl Conn {
    fn new(p: &Prog, setup: impl FnOnce(&Run)) -> Conn {
        let (run, q) = peer(p);
        setup(&run);
        Conn { run, q, c: None, log: vec![], prog: p.clone(), at: 0, n: 0 }
    }
    /// one step: the handshake first, then the operations in turn
    fn step(&mut self) -> bool {
        if self.at == 0 {
            match self.run.connect_scripted(Vec::new(), 500 + self.prog.which as u64) {
                Ok(c) => {
                    self.c = Some(c);
                    self.log.push("established".into())
                }
                Err(e) => self.log.push(format!("failed {:?} {}", e.kind, e.desc)),
            }
        } else if let (Some(c), Some(&o)) = (self.c.as_mut(), self.prog.ops.get(self.at - 1)) {
            self.n += 1;
            let tag = self.n.wrapping_add((self.prog.which as u8).wrapping_mul(50));
            let l = match o {
                W(n) => format!("write {:?}", c.write(&pattern(tag, n)).map_err(|e| e.kind())),
                R(n) => {
                    let mut b = vec![0; n];
                    let r = c.read(&mut b).map_err(|e| e.kind());
                    let k = *r.as_ref().unwrap_or(&0);
                    format!("read {:?} {}", r, hex(&b[..k.min(n)]))
                }
                Flush => format!("flush {:?}", c.flush().map_err(|e| e.kind())),
                Close => format!("close {:?}", c.close().map_err(|e| e.kind)),
                S(n) => {
                    let r = self.run.server.borrow_mut().seal(APP, &pattern(tag, n));
                    self.q.borrow_mut().push_back(Feed::Bytes(r));
                    String::new()
                }
                Bad => {
                    let mut r = self.run.server.borrow_mut().seal(APP, &pattern(tag, 9));
                    r[8] ^= 0x10;
                    self.q.borrow_mut().push_back(Feed::Bytes(r));
                    String::new()
                }
                Bye => {
                    let r = self.run.server.borrow_mut().seal(ALERT, &[1, 0]);
                    self.q.borrow_mut().push_back(Feed::Bytes(r));
                    String::new()
                }
            };
            self.log.push(l);
        }
        self.at += 1;
        self.at <= self.prog.ops.len()
    }
    fn trace(self) -> Trace {
        let out = self.run.world.borrow().out.clone();
        (self.log, out)
    }
}

fn exec(p: &Prog, setup: impl FnOnce(&Run)) -> Trace {
    let mut c = Conn::new(p, setup);
    while c.step() {}
    c.trace()
}

fn differ(who: &str, got: &Trace, solo: &Trace) -> Result<(), String> {
    for (i, (a, b)) in got.0.iter().zip(&solo.0).enumerate() {
        if a != b {
            return Err(format!("{}: step {} gives '{}', alone it gives '{}'", who, i, cut(a), cut(b)));
        }
    }
    if got.0.len() != solo.0.len() {
        return Err(format!("{}: {} steps instead of {}", who, got.0.len(), solo.0.len()));
    }
    if got.1 != solo.1 {
        let at = got.1.iter().zip(&solo.1).position(|(a, b)| a != b).unwrap_or(got.1.len().min(solo.1.len()));
        return Err(format!("{}: the bytes sent differ from those sent alone, from offset {} ({} / {} bytes)", who, at, got.1.len(), solo.1.len()));
    }
    Ok(())
}

fn cut(s: &str) -> &str {
    &s[..s.len().min(120)]
}

/// Two threads passing a baton at transport events.
struct Baton {
    m: Mutex<(usize, u64, [bool; 2], VecDeque<(usize, u64)>)>,
    cv: Condvar,
}

impl Baton {
    fn new(plan: &[(usize, u64)]) -> Baton {
        let mut q: VecDeque<(usize, u64)> = plan.iter().cloned().collect();
        let (w, b) = q.pop_front().unwrap();
        Baton { m: Mutex::new((w, b, [false; 2], q)), cv: Condvar::new() }
    }
    fn next(g: &mut (usize, u64, [bool; 2], VecDeque<(usize, u64)>)) {
        let (w, b) = g.3.pop_front().unwrap_or((1 - g.0, u64::MAX));
        g.0 = w;
        g.1 = b;
        if g.2[g.0] {
            g.0 = 1 - g.0;
            g.1 = u64::MAX;
        }
    }
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        loop {
            if g.0 == me {
                if g.1 > 0 {
                    g.1 -= 1;
                    return;
                }
                Self::next(&mut g);
                self.cv.notify_all();
                continue;
            }
            g = self.cv.wait(g).unwrap();
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.2[me] = true;
        if g.0 == me {
            g.0 = 1 - me;
            g.1 = u64::MAX;
        }
        self.cv.notify_all();
    }
}

fn threads(a: &Prog, b: &Prog, plan: &[(usize, u64)]) -> Result<(Trace, Trace), String> {
    let bt = Arc::new(Baton::new(plan));
    std::thread::scope(|s| {
        let hs: Vec<_> = [a, b]
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                let bt = bt.clone();
                s.spawn(move || {
                    let bt2 = bt.clone();
                    let r = guard(|| {
                        bt.wait(i);
                        exec(p, |run| run.world.borrow_mut().hook = Some(Box::new(move |_| bt2.wait(i))))
                    });
                    bt.done(i);
                    r
                })
            })
            .collect();
        let mut r: Vec<_> = hs.into_iter().map(|h| h.join().unwrap_or(Err("thread died".into()))).collect();
        let y = r.pop().unwrap()?;
        let x = r.pop().unwrap()?;
        Ok((x, y))
    })
}

struct Moved(Conn);
// Only one thread at a time touches it: it is handed over, never shared.
unsafe impl Send for Moved {}

fn main() {
    let c = Ctx::new("C25", "model_checking");
    let th = c.thorough();
    c.rule(
        "Each connection is first run alone (same peer, same generator stream) and its wire bytes, results and delivered data recorded; then with another one interleaved: (a) a whole second connection, successful or \
         failing, inserted before every single transport call of the first, on the same thread; (b) two threads under a baton scheduler, all schedules with two or three preemptions at transport calls; (c) all merges of \
         two sequences of operations, on one thread; (d) all sequences of consecutive connections; (e) connections handed to another thread between operations. Oracle: identical to the run alone.",
    );
    let good = vec![S(10), W(40), R(4), W(1), R(6), Flush, S(3), R(3), Close];
    let progs_a = vec![
        Prog { which: 0, how: Good, ops: good.clone() },
        Prog { which: 0, how: Good, ops: vec![W(20000), S(5), Bad, R(5), R(1), W(3), R(1)] },
        Prog { which: 0, how: BadFinished, ops: vec![] },
    ];
    let mut progs_b = vec![Prog { which: 1, how: Good, ops: vec![S(10), W(33), R(10), W(7), Bye, R(1), Close] }];
    for (k, how) in [BadFinished, BadPoint, BadSuite, Silent, Cut, Alert].into_iter().enumerate() {
        progs_b.push(Prog { which: 2 + k, how, ops: vec![] });
    }
    // the same server and the same generator output: identical twins must not disturb each other either
    progs_b.push(Prog { which: 0, how: Good, ops: good.clone() });

    // (a) nested at every transport call
    for (ai, a) in progs_a.iter().enumerate() {
        let ticks = Rc::new(Cell::new(0));
        let t2 = ticks.clone();
        let _ = guard(|| exec(a, |r| r.world.borrow_mut().hook = Some(Box::new(move |n| t2.set(n + 1)))));
        let n = ticks.get() as usize;
        c.par(n * progs_b.len(), |i| {
            let (k, b) = ((i / progs_b.len()) as u64, &progs_b[i % progs_b.len()]);
            c.case(&format!("nested/{}/{}/{:?}{}", ai, k, b.how, b.which), || {
                let sa = exec(a, |_| {});
                let sb = exec(b, |_| {});
                let tb: Rc<RefCell<Option<Trace>>> = Rc::default();
                let (tb2, b2) = (tb.clone(), b.clone());
                let ta = exec(a, |r| {
                    r.world.borrow_mut().hook = Some(Box::new(move |n| {
                        if n == k {
                            let keep = getrandom::save();
                            *tb2.borrow_mut() = Some(exec(&b2, |_| {}));
                            getrandom::restore(keep);
                        }
                    }))
                });
                differ("outer connection", &ta, &sa)?;
                match tb.borrow().as_ref() {
                    Some(t) => differ("inner connection", t, &sb)?,
                    None => return Err("the first connection makes fewer transport calls than before".into()),
                }
                Ok("as alone".into())
            });
        });
        c.bound(format!("program {}: a second connection ({} kinds) at each of {} transport calls", ai, progs_b.len(), n));
    }

    // (b) two threads, schedules with up to three preemptions
    for (ai, a) in progs_a.iter().enumerate() {
        let b = &progs_b[if ai == 2 { 1 } else { 0 }];
        let count = |p: &Prog| {
            let t = Rc::new(Cell::new(0u64));
            let t2 = t.clone();
            let _ = guard(|| exec(p, |r| r.world.borrow_mut().hook = Some(Box::new(move |n| t2.set(n + 1)))));
            t.get()
        };
        let (na, nb) = (count(a), count(b));
        let sb = if th { 1 } else { 4 };
        let mut plans = vec![];
        for k in 0..=na {
            for m in (0..=nb).step_by(sb) {
                // let the quick tier slide over every residue
                let m = if th { m } else { (m + k % 4).min(nb) };
                plans.push(vec![(0, k), (1, m), (0, u64::MAX)]);
                if th || (k % 4 == 0) {
                    plans.push(vec![(0, k), (1, m), (0, 2), (1, 3), (0, u64::MAX)]);
                }
            }
        }
        let (ra, rb) = (guard(|| exec(a, |_| {})), guard(|| exec(b, |_| {})));
        if let (Ok(ra), Ok(rb)) = (ra, rb) {
            c.par(plans.len(), |i| {
                c.case(&format!("threads/{}/{:?}", ai, plans[i]), || {
                    let (ta, tb) = threads(a, b, &plans[i])?;
                    differ("first thread", &ta, &ra)?;
                    differ("second thread", &tb, &rb)?;
                    Ok("as alone".into())
                });
            });
        } else {
            c.case("threads/solo", || Err("a connection alone panics".into()));
        }
        c.bound(format!("program pair {}: {} two-thread schedules over {} and {} transport calls", ai, plans.len(), na, nb));
    }

    // (c) merges of operations on one thread
    let set = [W(5), R(3), Close, Bad, W(17000), Bye];
    let set = if th { &set[..] } else { &set[..4] };
    let mut seqs = vec![];
    for i in 0..set.len().pow(3) {
        let mut x = i;
        let mut v = vec![S(7)];
        for _ in 0..3 {
            v.push(set[x % set.len()]);
            x /= set.len();
        }
        seqs.push(v);
    }
    let partners: Vec<Vec<Op>> = vec![
        vec![S(5), W(9), R(5), W(9)],
        vec![S(5), R(2), R(3), W(1)],
        vec![S(5), Bad, R(9), W(3)],
        vec![W(4), W(5), Close, Flush],
        vec![S(1), Bye, R(5), W(6)],
    ];
    let partners = if th { &partners[..] } else { &partners[..3] };
    // interleavings of (handshake + 3 ops) with (handshake + 3 ops); S rides along with the handshake
    let merges: Vec<u32> = (0..256u32).filter(|m| m.count_ones() == 4).collect();
    c.par(seqs.len() * partners.len(), |i| {
        let (sa, sb) = (&seqs[i / partners.len()], &partners[i % partners.len()]);
        c.case(&format!("merge/{:?}/{:?}", sa, sb), || {
            let a = Prog { which: 1, how: Good, ops: sa.clone() };
            let b = Prog { which: 2, how: Good, ops: sb.clone() };
            let (ra, rb) = (exec(&a, |_| {}), exec(&b, |_| {}));
            for m in &merges {
                let (mut x, mut y) = (Conn::new(&a, |_| {}), Conn::new(&b, |_| {}));
                for bit in 0..8 {
                    let k = if m >> bit & 1 == 1 { &mut x } else { &mut y };
                    let first = k.at == 0;
                    k.step();
                    if first {
                        k.step();
                    }
                }
                while x.at <= a.ops.len() {
                    x.step();
                }
                while y.at <= b.ops.len() {
                    y.step();
                }
                differ(&format!("merge {:08b}, first", m), &x.trace(), &ra)?;
                differ(&format!("merge {:08b}, second", m), &y.trace(), &rb)?;
            }
            c.add_traces(merges.len() as u64 - 1);
            Ok("as alone".into())
        });
    });
    c.bound(format!("all {} merges of handshake+3 operations with handshake+3 operations, {} x {} programs", merges.len(), seqs.len(), partners.len()));

    // (d) consecutive connections
    let kinds: Vec<Prog> = progs_b.iter().cloned().chain([Prog { which: 9, how: Good, ops: vec![W(3)] }]).collect();
    let d = if th { 4u32 } else { 3 };
    c.par(kinds.len().pow(d), |i| {
        c.case(&format!("after/{}", i), || {
            let mut x = i;
            for k in 0..d {
                let p = &kinds[x % kinds.len()];
                x /= kinds.len();
                let t = exec(p, |_| {});
                // alone: on a thread of its own, to begin with thread-local state as new
                let solo = std::thread::scope(|s| s.spawn(|| guard(|| exec(p, |_| {}))).join().unwrap_or(Err("thread died".into())))?;
                differ(&format!("connection {} of the sequence ({:?})", k, p.how), &t, &solo)?;
            }
            Ok("as alone".into())
        });
    });
    c.bound(format!("all sequences of {} consecutive connections of {} kinds", d, kinds.len()));

    // (e) handed to another thread before every step
    for (k, p) in progs_a.iter().chain(&progs_b).enumerate() {
        for mask in 0..if th { 512u32 } else { 64 } {
            c.case(&format!("moved/{}/{:b}", k, mask), || {
                let solo = exec(p, |_| {});
                let mut cell = Moved(Conn::new(p, |_| {}));
                let mut i = 0;
                loop {
                    let more;
                    if mask >> (i % 9) & 1 == 1 {
                        let r = std::thread::scope(|s| {
                            s.spawn(move || {
                                let mut cell = cell;
                                let cell_ref = &mut cell;
                                let more = guard(|| cell_ref.0.step());
                                (cell, more)
                            })
                            .join()
                        });
                        let (x, m) = r.map_err(|_| "thread died".to_string())?;
                        cell = x;
                        more = m?;
                    } else {
                        more = cell.0.step();
                    }
                    i += 1;
                    if !more {
                        break;
                    }
                }
                differ("a connection handed between threads", &cell.0.trace(), &solo)?;
                Ok("as alone".into())
            });
        }
    }
    c.bound("every program with every subset of its first steps run on another thread");
    c.finish()
}
