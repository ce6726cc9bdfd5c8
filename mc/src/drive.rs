//! Driving the real client inside the closed environment.
use crate::net::*;
use crate::reftls::*;
use husk::tls_result::TlsError;
use husk::TlsClient;
use rand::rngs::OsRng;
use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

pub type Client = TlsClient<End, End>;

pub struct Run {
    pub world: Rc<RefCell<World>>,
    pub server: Rc<RefCell<Server>>,
}

/// Default seed of the scripted random source.
pub const SEED: u64 = 1;

/// Build a world whose peer is `step`, called with the up-to-date server each time the client
/// waits for bytes.
pub fn world(cfg: Cfg, mut step: impl FnMut(&mut Server) -> Feed + 'static) -> Run {
    let server = Rc::new(RefCell::new(Server::new(cfg)));
    let s2 = server.clone();
    let world = World::new(Box::new(move |seen: &[u8]| {
        let mut s = s2.borrow_mut();
        s.absorb(seen);
        step(&mut s)
    }));
    Run { world, server }
}

impl Run {
    pub fn connect(&self) -> Result<Client, TlsError> {
        getrandom::script(Vec::new(), SEED);
        self.connect_as_is()
    }
    pub fn connect_scripted(&self, script: Vec<u8>, seed: u64) -> Result<Client, TlsError> {
        getrandom::script(script, seed);
        self.connect_as_is()
    }
    pub fn connect_as_is(&self) -> Result<Client, TlsError> {
        TlsClient::new(End(self.world.clone()), End(self.world.clone()), OsRng)
    }
    /// Let the server look at everything written so far.
    pub fn sync(&self) {
        let w = self.world.borrow();
        let n = w.seen_by_peer();
        self.server.borrow_mut().absorb(&w.out[..n]);
    }
    pub fn events(&self) -> u64 {
        self.world.borrow().seq_events
    }
    pub fn stalled(&self) -> bool {
        self.world.borrow().stalled > 0
    }
    pub fn problems(&self) -> Result<(), String> {
        let s = self.server.borrow();
        if s.problems.is_empty() {
            Ok(())
        } else {
            Err(s.problems.join("; "))
        }
    }
}

pub fn kind(e: &TlsError) -> String {
    format!("{:?}", e.kind)
}

/// The conforming peer: flight as one handshake record per message, then CCS and Finished when the
/// client has sent its own, then each element of `after` (as protected records), then `end`.
pub fn conforming(cfg: Cfg, after: Vec<(u8, Vec<u8>)>, end: fn() -> Feed) -> Run {
    let mut stage = 0;
    let mut after = after.into_iter();
    world(cfg, move |s| {
        stage += 1;
        match stage {
            1 => {
                if s.msgs.is_empty() {
                    stage = 0;
                    return Feed::Stall;
                }
                let mut f = Vec::new();
                for m in [s.cfg.server_hello(), s.cfg.certificate(), s.cfg.ske(), s.cfg.shd()] {
                    f.extend(recs(HS, &m, 1 << 14));
                }
                Feed::Bytes(f)
            }
            2 => match s.finished() {
                None => {
                    stage = 1;
                    Feed::Stall
                }
                Some(m) => {
                    let mut f = rec(CCS, &[1]);
                    f.extend(s.seal(HS, &m));
                    Feed::Bytes(f)
                }
            },
            _ => match after.next() {
                Some((t, p)) => {
                    let r = s.seal(t, &p);
                    Feed::Bytes(r)
                }
                None => end(),
            },
        }
    })
}

pub fn eof() -> Feed {
    Feed::Eof
}
pub fn stall() -> Feed {
    Feed::Stall
}

/// Read until the client reports end of stream (Ok(0) on a non-empty buffer) or an error.
pub fn drain(c: &mut Client, chunk: usize) -> (Vec<u8>, Result<(), String>) {
    let mut got = Vec::new();
    let mut buf = vec![0u8; chunk];
    loop {
        match c.read(&mut buf) {
            Ok(0) => return (got, Ok(())),
            Ok(n) => {
                assert!(n <= buf.len(), "read returned more than the buffer holds");
                got.extend_from_slice(&buf[..n])
            }
            Err(e) => return (got, Err(e.to_string())),
        }
    }
}

/// Deterministic distinguishable payload bytes.
pub fn pattern(tag: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(2654435761).rotate_left(7) as u8 ^ tag.wrapping_mul(37)).collect()
}

/// An established connection whose later input the test decides step by step.
pub struct Est {
    pub c: Client,
    pub run: Run,
    pub q: Rc<RefCell<std::collections::VecDeque<Feed>>>,
    pub end: Rc<std::cell::Cell<fn() -> Feed>>,
}

impl Est {
    /// Protected record from the server under the next sequence number.
    pub fn seal(&self, ty: u8, pt: &[u8]) -> Vec<u8> {
        self.run.server.borrow_mut().seal(ty, pt)
    }
    pub fn push(&self, b: Vec<u8>) {
        self.q.borrow_mut().push_back(Feed::Bytes(b))
    }
    pub fn feed(&self, f: Feed) {
        self.q.borrow_mut().push_back(f)
    }
    pub fn send(&self, ty: u8, pt: &[u8]) {
        let r = self.seal(ty, pt);
        self.push(r)
    }
    pub fn out_len(&self) -> usize {
        self.run.world.borrow().out.len()
    }
    /// Bytes the client has asked the peer for and not been given yet, or queued feeds.
    pub fn idle(&self) -> bool {
        self.q.borrow().is_empty() && self.run.world.borrow().inbox.is_empty()
    }
}

/// A peer that completes the handshake and then plays the queue; `q` empty means `end`.
pub fn scripted_peer(cfg: Cfg, end: fn() -> Feed) -> (Run, Rc<RefCell<std::collections::VecDeque<Feed>>>, Rc<std::cell::Cell<fn() -> Feed>>) {
    let q: Rc<RefCell<std::collections::VecDeque<Feed>>> = Rc::default();
    let e = Rc::new(std::cell::Cell::new(end));
    let (q2, e2) = (q.clone(), e.clone());
    let mut stage = 0;
    let run = world(cfg, move |s| {
        if stage == 0 {
            if s.msgs.is_empty() {
                return Feed::Stall;
            }
            stage = 1;
            let f = s.cfg.flight();
            return Feed::Bytes(recs(HS, &f, 1 << 14));
        }
        if stage == 1 {
            return match s.finished() {
                None => Feed::Stall,
                Some(m) => {
                    stage = 2;
                    let mut f = rec(CCS, &[1]);
                    f.extend(s.seal(HS, &m));
                    Feed::Bytes(f)
                }
            };
        }
        let x = q2.borrow_mut().pop_front();
        match x {
            Some(f) => f,
            None => (e2.get())(),
        }
    });
    (run, q, e)
}

pub fn establish(cfg: Cfg, end: fn() -> Feed) -> Result<Est, String> {
    establish_seed(cfg, end, SEED)
}

pub fn establish_seed(cfg: Cfg, end: fn() -> Feed, seed: u64) -> Result<Est, String> {
    let (run, q, e) = scripted_peer(cfg, end);
    match run.connect_scripted(Vec::new(), seed) {
        Ok(c) => Ok(Est { c, run, q, end: e }),
        Err(x) => {
            run.sync();
            let p = run.server.borrow().problems.join("; ");
            Err(format!("the plain conforming handshake fails: {:?} {} {}", x.kind, x.desc, p))
        }
    }
}
