#![allow(unused_imports)]
use husk::TlsClient;
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::util::*;
use rand::rngs::OsRng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::*};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
struct Slim {
    q: Vec<u8>,
    pos: usize,
    written: u64,
    read_err: Option<ErrorKind>,
    write_err: Option<ErrorKind>,
    chunk: usize,
}

/// The transport: the model world during the handshake, a queue that keeps no history afterwards.
#[derive(Clone)]
struct Pipe {
    end: End,
    slim: Rc<RefCell<Slim>>,
    on: Rc<Cell<bool>>,
}

impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.on.get() {
            return self.end.read(buf);
        }
        let mut s = self.slim.borrow_mut();
        if let Some(k) = s.read_err.take() {
            return Err(io::Error::from(k));
        }
        if s.pos == s.q.len() {
            return Err(io::Error::from(ErrorKind::WouldBlock));
        }
        let mut n = buf.len().min(s.q.len() - s.pos);
        if s.chunk > 0 {
            n = n.min(s.chunk);
        }
        buf[..n].copy_from_slice(&s.q[s.pos..s.pos + n]);
        s.pos += n;
        if s.pos == s.q.len() {
            s.q.clear();
            s.pos = 0;
        }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if !self.on.get() {
            return self.end.write(buf);
        }
        let mut s = self.slim.borrow_mut();
        if let Some(k) = s.write_err.take() {
            return Err(io::Error::from(k));
        }
        s.written += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        if !self.on.get() {
            return self.end.flush();
        }
        Ok(())
    }
}


fn hostile(bytes: Vec<u8>) -> usize {
    let mut once = Some(bytes);
    let run = world(default_cfg(), move |_| match once.take() {
        Some(b) => Feed::Bytes(b),
        None => Feed::Eof,
    });
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    let _ = run.connect();
    PEAK.load(SeqCst) - before
}

type C = TlsClient<Pipe, Pipe>;

/// memory gained by repeating `f` on one connection
fn life(what: &str, n: usize, mut f: impl FnMut(&mut C, &Pipe, &Run)) {
    let (run, _q, _e) = scripted_peer(default_cfg(), eof);
    let p = Pipe { end: End(run.world.clone()), slim: Rc::default(), on: Rc::default() };
    getrandom::script(Vec::new(), SEED);
    let mut c = match TlsClient::new(p.clone(), p.clone(), OsRng) {
        Ok(c) => c,
        Err(_) => return expect(false, "no handshake"),
    };
    p.on.set(true);
    let mut at = 0;
    for i in 0..n {
        f(&mut c, &p, &run);
        if i == 100 {
            at = LIVE.load(SeqCst);
        }
    }
    let gained = LIVE.load(SeqCst).saturating_sub(at);
    expect(gained < 100_000, &format!("{}: the connection has grown by {} bytes", what, gained));
}

fn send(p: &Pipe, run: &Run, ty: u8, pt: &[u8]) {
    let r = run.server.borrow_mut().seal(ty, pt);
    p.slim.borrow_mut().q.extend(r);
}

fn main() {
    let mut f = rec(HS, &default_cfg().server_hello());
    f.extend(rec(HS, &[11, 0xff, 0xff, 0xff, 1, 2, 3]));
    let n = hostile(f);
    expect(n < 1 << 20, &format!("a message that only announces its length takes {} bytes", n));
    let mut f = rec(HS, &default_cfg().server_hello());
    f.extend(rec(HS, &hs(11, &[0x7f, 0xff, 0xff, 0, 0, 1, 1])));
    let n = hostile(f);
    expect(n < 1 << 20, &format!("a list that only announces its length takes {} bytes", n));
    life("reading", 20_000, |c, p, run| {
        send(p, run, APP, &[5; 100]);
        let mut b = [0; 100];
        expect(c.read(&mut b).unwrap_or(0) == 100, "read");
    });
    life("hello requests", 20_000, |c, p, run| {
        send(p, run, HS, &[0, 0, 0, 0]);
        send(p, run, APP, &[5; 1]);
        let mut b = [0; 1];
        expect(c.read(&mut b).unwrap_or(0) == 1, "read");
    });
    life("failing writes", 20_000, |c, p, _| {
        p.slim.borrow_mut().write_err = Some(ErrorKind::WouldBlock);
        expect(c.write_all(b"x").is_err(), "write");
    });
    life("writes", 20_000, |c, _, _| expect(c.write_all(b"xyz").is_ok(), "write"));
}
