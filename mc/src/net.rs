//! The closed environment: an in-memory transport whose every answer the harness decides.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// What the peer does when the client waits for bytes.
pub enum Feed {
    Bytes(Vec<u8>),
    /// orderly end of the transport stream (every later read returns Ok(0) again)
    Eof,
    /// transport error (every later read asks the peer again)
    Err(ErrorKind),
    /// the peer itself waits: with a real blocking transport the client would now wait forever
    Stall,
}

pub type PeerFn = Box<dyn FnMut(&[u8]) -> Feed>;

#[derive(Clone, Default, Debug)]
pub struct ReadPolicy {
    /// at most this many bytes per read call (0 = unlimited)
    pub max: usize,
    /// a read never crosses these absolute stream offsets
    pub cut_at: Vec<u64>,
    /// before the byte at this offset is delivered, one read call fails with `Interrupted`
    pub interrupt_at: Vec<u64>,
    /// at this offset the stream ends (None) or fails with that error; permanent
    pub end_at: Option<(u64, Option<ErrorKind>)>,
    /// at this offset one read call fails with that error; the stream then goes on
    pub err_once: Vec<(u64, ErrorKind)>,
}

/// Every way a transport call fails for good (an interruption is none).
pub const KINDS: [ErrorKind; 22] = [
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
];

/// An error of this kind, as libraries make them and as the operating system does, by turns.
pub fn failure(k: ErrorKind, turn: u64) -> io::Error {
    let os = match k {
        ErrorKind::ConnectionReset => 104,
        ErrorKind::Interrupted => 4,
        ErrorKind::TimedOut => 110,
        ErrorKind::WouldBlock => 11,
        ErrorKind::BrokenPipe => 32,
        ErrorKind::NotFound => 2,
        ErrorKind::PermissionDenied => 13,
        ErrorKind::ConnectionRefused => 111,
        ErrorKind::ConnectionAborted => 103,
        ErrorKind::NotConnected => 107,
        ErrorKind::HostUnreachable => 113,
        ErrorKind::NetworkUnreachable => 101,
        ErrorKind::NetworkDown => 100,
        _ => 0,
    };
    match turn % 3 {
        0 if os > 0 && io::Error::from_raw_os_error(os).kind() == k => io::Error::from_raw_os_error(os),
        1 => io::Error::from(k),
        _ => io::Error::new(k, "injected failure"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    Err(ErrorKind),
    Zero,
}

#[derive(Clone, Default, Debug)]
pub struct WritePolicy {
    pub max: usize,
    pub cut_at: Vec<u64>,
    pub interrupt_at: Vec<u64>,
    /// (offset, fault, permanent): when `offset` bytes have been accepted, the next write call fails
    pub fault_at: Vec<(u64, WFault, bool)>,
}

pub struct World {
    pub inbox: VecDeque<u8>,
    pub delivered: u64,
    pub out: Vec<u8>,
    pub flushed: usize,
    /// buffered transport: the peer sees only what was flushed
    pub buffered: bool,
    /// capacity of the buffer (BufWriter semantics); only flush() empties it when usize::MAX
    pub capacity: usize,
    /// flush() fails once this many bytes have been written
    pub flush_fault_at: Option<u64>,
    /// how it fails
    pub flush_fault: ErrorKind,
    /// how often it fails
    pub flush_faults: u64,
    pub rp: ReadPolicy,
    pub wp: WritePolicy,
    pub peer: PeerFn,
    pub eof: bool,
    pub stalled: u64,
    pub read_calls: u64,
    pub write_calls: u64,
    pub idle: u64,
    /// offsets in `out` at which an injected write fault fired
    pub faults: Vec<u64>,
    pub seq_events: u64,
    /// called before every read, write and flush of the client, with the number of such calls so far
    pub hook: Option<Box<dyn FnMut(u64)>>,
    pub ticks: u64,
    /// hash of the observable history so far; one entry of `visited` per transport event
    history: u64,
    visited: Vec<u64>,
    /// count the events of a very long history, but do not keep them
    pub mute: bool,
}

fn mix(h: u64, x: u64) -> u64 {
    let v = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    v ^ (v >> 29)
}

impl Drop for World {
    fn drop(&mut self) {
        crate::report::visit(&self.visited);
    }
}

pub const HORIZON: u64 = 5_000;

impl World {
    pub fn new(peer: PeerFn) -> Rc<RefCell<World>> {
        Rc::new(RefCell::new(World {
            inbox: VecDeque::new(),
            delivered: 0,
            out: Vec::new(),
            flushed: 0,
            buffered: false,
            capacity: usize::MAX,
            flush_fault_at: None,
            flush_fault: ErrorKind::BrokenPipe,
            flush_faults: u64::MAX,
            rp: ReadPolicy::default(),
            wp: WritePolicy::default(),
            peer,
            eof: false,
            stalled: 0,
            read_calls: 0,
            write_calls: 0,
            idle: 0,
            faults: Vec::new(),
            seq_events: 0,
            hook: None,
            ticks: 0,
            history: 0x1234_5678,
            visited: Vec::new(),
            mute: false,
        }))
    }

    /// the write call that would send the byte at this offset fails, once
    pub fn fault_at_once(&mut self, at: u64, f: WFault) {
        self.wp.fault_at = vec![(at, f, false)];
    }

    pub fn seen_by_peer(&self) -> usize {
        if self.buffered {
            self.flushed
        } else {
            self.out.len()
        }
    }

    fn event(&mut self, what: u64, data: &[u8]) {
        if self.mute {
            return;
        }
        let mut h = mix(self.history, what);
        for c in data.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(w));
        }
        self.history = mix(h, data.len() as u64);
        self.visited.push(self.history);
    }

    fn idle(&mut self) {
        self.idle += 1;
        if self.idle > HORIZON {
            // the client keeps asking a transport that has nothing more to say
            panic!("LIVELOCK: client polled an exhausted transport {} times", HORIZON);
        }
    }

    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_calls += 1;
        self.seq_events += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let off = self.delivered;
        if let Some(i) = self.rp.interrupt_at.iter().position(|&o| o == off) {
            self.rp.interrupt_at.remove(i);
            return Err(failure(ErrorKind::Interrupted, off));
        }
        if let Some(i) = self.rp.err_once.iter().position(|x| x.0 == off) {
            let k = self.rp.err_once.remove(i).1;
            return Err(failure(k, off));
        }
        let mut limit = buf.len();
        if self.rp.max > 0 {
            limit = limit.min(self.rp.max);
        }
        for &c in self.rp.cut_at.iter().chain(self.rp.interrupt_at.iter()).chain(self.rp.err_once.iter().map(|x| &x.0)) {
            if c > off {
                limit = limit.min((c - off) as usize);
            }
        }
        if let Some((at, how)) = self.rp.end_at {
            if off >= at {
                self.idle();
                return match how {
                    None => Ok(0),
                    Some(k) => Err(failure(k, off)),
                };
            }
            limit = limit.min((at - off) as usize);
        }
        while self.inbox.is_empty() {
            if self.eof {
                self.idle();
                return Ok(0);
            }
            let n = self.seen_by_peer();
            let seen = self.out[..n].to_vec();
            match (self.peer)(&seen) {
                Feed::Bytes(b) => {
                    self.seq_events += 1;
                    self.inbox.extend(b)
                }
                Feed::Eof => self.eof = true,
                Feed::Err(k) => {
                    self.idle();
                    return Err(failure(k, off));
                }
                Feed::Stall => {
                    self.stalled += 1;
                    self.idle();
                    return Err(io::Error::new(ErrorKind::Other, "STALL: both ends wait"));
                }
            }
        }
        let n = limit.min(self.inbox.len());
        for b in buf[..n].iter_mut() {
            *b = self.inbox.pop_front().unwrap();
        }
        self.delivered += n as u64;
        Ok(n)
    }

    fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_calls += 1;
        self.seq_events += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let off = self.out.len() as u64;
        if let Some(i) = self.wp.interrupt_at.iter().position(|&o| o == off) {
            self.wp.interrupt_at.remove(i);
            return Err(failure(ErrorKind::Interrupted, off));
        }
        let mut limit = buf.len();
        if self.wp.max > 0 {
            limit = limit.min(self.wp.max);
        }
        for &c in self.wp.cut_at.iter().chain(self.wp.interrupt_at.iter()) {
            if c > off {
                limit = limit.min((c - off) as usize);
            }
        }
        for i in 0..self.wp.fault_at.len() {
            let (at, f, perm) = self.wp.fault_at[i];
            if off == at || (perm && off >= at) {
                if !perm {
                    self.wp.fault_at.remove(i);
                }
                self.faults.push(off);
                self.idle();
                return match f {
                    WFault::Zero => Ok(0),
                    WFault::Err(k) => Err(failure(k, off)),
                };
            }
            if at > off {
                limit = limit.min((at - off) as usize);
            }
        }
        if self.buffered && self.out.len() - self.flushed + limit > self.capacity {
            self.flushed = self.out.len();
        }
        self.out.extend_from_slice(&buf[..limit]);
        if self.buffered && limit >= self.capacity {
            self.flushed = self.out.len();
        }
        Ok(limit)
    }
}

#[derive(Clone)]
pub struct End(pub Rc<RefCell<World>>);

impl End {
    fn tick(&self) {
        let (h, n) = {
            let mut w = self.0.borrow_mut();
            w.ticks += 1;
            (w.hook.take(), w.ticks - 1)
        };
        if let Some(mut h) = h {
            h(n);
            self.0.borrow_mut().hook = Some(h);
        }
    }
}

impl Read for End {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick();
        let mut w = self.0.borrow_mut();
        let r = w.do_read(buf);
        match &r {
            Ok(n) => w.event(1, &buf[..*n]),
            Err(e) => w.event(2 + ((e.kind() as u64) << 8), &[]),
        }
        r
    }
}

impl Write for End {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.tick();
        let mut w = self.0.borrow_mut();
        let r = w.do_write(buf);
        match &r {
            Ok(n) => w.event(3, &buf[..*n]),
            Err(e) => w.event(4 + ((e.kind() as u64) << 8), &[]),
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick();
        let mut w = self.0.borrow_mut();
        w.event(5, &[]);
        if w.flush_faults > 0 && w.flush_fault_at.map_or(false, |a| w.out.len() as u64 >= a) {
            w.idle();
            w.flush_faults -= 1;
            return Err(failure(w.flush_fault, w.out.len() as u64 + w.flush_faults % 2));
        }
        w.flushed = w.out.len();
        Ok(())
    }
}
