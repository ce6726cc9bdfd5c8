//! C27: memory stays bounded whatever the peer says and however long a connection lives.
use husk::TlsClient;
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use rand::rngs::OsRng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Counts what husk's code allocates: a block belongs to husk if it was allocated while the thread was inside
/// a call of husk and not inside the transport the harness gave it.
struct Counting;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn pad(align: usize) -> usize {
    align.max(16)
}

fn grow(n: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l.align());
        let Ok(big) = Layout::from_size_align(l.size() + p, p) else { return std::ptr::null_mut() };
        let b = System.alloc(big);
        if b.is_null() {
            return b;
        }
        let mine = INSIDE.try_with(|i| i.get()).unwrap_or(false);
        *(b.add(p - 8) as *mut u64) = mine as u64;
        if mine {
            grow(l.size() as i64);
        }
        b.add(p)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = pad(l.align());
        if *(q.sub(8) as *mut u64) == 1 {
            grow(-(l.size() as i64));
        }
        System.dealloc(q.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let p = pad(l.align());
        if n.checked_add(p).is_none() {
            return std::ptr::null_mut();
        }
        let mine = *(q.sub(8) as *mut u64) == 1;
        let b = System.realloc(q.sub(p), Layout::from_size_align_unchecked(l.size() + p, p), n + p);
        if b.is_null() {
            return b;
        }
        if mine {
            grow(n as i64 - l.size() as i64);
        }
        b.add(p)
    }
}

#[global_allocator]
static A: Counting = Counting;

struct Enter(bool);
impl Enter {
    fn new(x: bool) -> Enter {
        Enter(INSIDE.with(|i| i.replace(x)))
    }
}
impl Drop for Enter {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0))
    }
}

/// run husk
fn husk<T>(f: impl FnOnce() -> T) -> T {
    let _e = Enter::new(true);
    f()
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
fn peak_from_here() {
    PEAK.with(|p| p.set(live()))
}
fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

/// what a connection may hold, and the most any one call may need besides what it was given
const CONST: i64 = 256 << 10;
/// decoded form of a received byte (a one-byte certificate becomes a list entry with an allocation of its own)
const PER_BYTE: i64 = 64;

#[derive(Default)]
struct Slim {
    q: Vec<u8>,
    pos: usize,
    written: u64,
    read_err: Option<ErrorKind>,
    write_err: Option<ErrorKind>,
    chunk: usize,
}

/// The transport: the model world during the handshake, a queue that keeps no history afterwards.
#[derive(Clone)]
struct Pipe {
    end: End,
    slim: Rc<RefCell<Slim>>,
    on: Rc<Cell<bool>>,
}

impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _e = Enter::new(false);
        if !self.on.get() {
            return self.end.read(buf);
        }
        let mut s = self.slim.borrow_mut();
        if let Some(k) = s.read_err.take() {
            return Err(io::Error::from(k));
        }
        if s.pos == s.q.len() {
            return Err(io::Error::from(ErrorKind::WouldBlock));
        }
        let mut n = buf.len().min(s.q.len() - s.pos);
        if s.chunk > 0 {
            n = n.min(s.chunk);
        }
        buf[..n].copy_from_slice(&s.q[s.pos..s.pos + n]);
        s.pos += n;
        if s.pos == s.q.len() {
            s.q.clear();
            s.pos = 0;
        }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _e = Enter::new(false);
        if !self.on.get() {
            return self.end.write(buf);
        }
        let mut s = self.slim.borrow_mut();
        if let Some(k) = s.write_err.take() {
            return Err(io::Error::from(k));
        }
        s.written += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        let _e = Enter::new(false);
        if !self.on.get() {
            return self.end.flush();
        }
        Ok(())
    }
}

fn pipe(run: &Run) -> Pipe {
    Pipe { end: End(run.world.clone()), slim: Rc::default(), on: Rc::default() }
}

type C = TlsClient<Pipe, Pipe>;

fn connect(run: &Run, p: &Pipe) -> Result<C, String> {
    getrandom::script(Vec::new(), SEED);
    let (a, b) = (p.clone(), p.clone());
    let _ = run;
    let r = husk(|| TlsClient::new(a, b, OsRng));
    match r {
        Ok(c) => Ok(c),
        Err(e) => {
            let k = kind(&e);
            husk(|| drop(e));
            Err(k)
        }
    }
}

/// One connection attempt; the peak is compared with what the peer has really sent.
fn attempt(run: Run, use_it: bool) -> Result<String, String> {
    let base = live();
    peak_from_here();
    let p = pipe(&run);
    let mut out;
    match connect(&run, &p) {
        Err(k) => out = format!("refused: {}", k),
        Ok(mut c) => {
            out = "established".to_string();
            let held = live() - base;
            // a buffer may keep the size the largest message of the handshake needed
            let rx = run.world.borrow().delivered as i64;
            if held > CONST + 4 * rx {
                return Err(format!("an idle connection holds {} bytes after a handshake of {}", held, rx));
            }
            if use_it {
                let mut b = [0u8; 64];
                let mut got = 0;
                loop {
                    match husk(|| c.read(&mut b)) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => got += n,
                    }
                }
                let _ = husk(|| c.close());
                out = format!("established, {}", if got > 0 { "data" } else { "no data" });
            }
            husk(|| drop(c));
        }
    }
    let rx = run.world.borrow().delivered as i64;
    let need = peak() - base;
    if need > CONST + PER_BYTE * rx {
        return Err(format!("the peer has sent {} bytes and husk holds {} bytes at once", rx, need));
    }
    Ok(out)
}

fn raw_world(cfg: Cfg, bytes: Vec<u8>) -> Run {
    let mut once = Some(bytes);
    world(cfg, move |_| match once.take() {
        Some(b) if !b.is_empty() => Feed::Bytes(b),
        _ => Feed::Eof,
    })
}

/// the handshake up to ChangeCipherSpec, then these protected records, then the end
fn after_ccs(then: Vec<(u8, Vec<u8>)>, finish: bool) -> Run {
    let mut stage = 0;
    world(default_cfg(), move |s| {
        stage += 1;
        match stage {
            1 => Feed::Bytes(recs(HS, &s.cfg.flight(), 1 << 14)),
            2 if s.keys.is_some() => {
                let mut o = rec(CCS, &[1]);
                if finish {
                    if let Some(m) = s.finished() {
                        o.extend(s.seal(HS, &m));
                    }
                }
                for (t, b) in &then {
                    o.extend(s.seal(*t, b));
                }
                Feed::Bytes(o)
            }
            _ => Feed::Eof,
        }
    })
}

/// Repeat the same connection: what it leaves behind must not add up.
fn repeated(mk: &dyn Fn() -> Run, n: usize) -> Result<String, String> {
    let mut out = String::new();
    let mut early = 0;
    for i in 0..n {
        out = attempt(mk(), true)?;
        if i == n / 4 {
            early = live();
        }
    }
    let grown = live() - early;
    if grown > 0 {
        return Err(format!("{} connections of this kind, all dropped, leave {} bytes behind ({})", n - n / 4 - 1, grown, out));
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    W(usize),
    Flush,
    /// peer sends a record of so many bytes, read in pieces
    R(usize, usize),
    /// k records of n bytes, read as a whole
    Many(usize, usize),
    EmptyThen(usize),
    Hello,
    HelloSplit,
    ReadNothing,
    /// a read that finds the transport empty
    ReadBlock,
    ReadInterrupted,
    /// a write during which the transport fails once
    WriteErr,
    Get,
}
use Op::*;

const LIGHT: &[Op] = &[W(0), W(1), W(100), Flush, R(1, 1), R(100, 7), R(60, 100), EmptyThen(3), Hello, HelloSplit, ReadNothing, ReadBlock, ReadInterrupted, WriteErr, Get];
/// so large that a buffer kept at this size shows at once
const HUGE: &[Op] = &[W(1 << 20), W((1 << 20) + 1), R(1 << 14, 1 << 14), Many(64, 16384), Many(100, 10000), R(16384, 1)];

const HEAVY: &[Op] = &[W(16384), W(40000), R(16384, 16384), R(16384, 1000), R(10000, 3), Many(16, 100), Many(3, 16384)];

struct Conn {
    c: C,
    p: Pipe,
    run: Run,
    buf: Vec<u8>,
}

impl Conn {
    fn send(&self, ty: u8, pt: &[u8]) {
        let r = self.run.server.borrow_mut().seal(ty, pt);
        self.p.slim.borrow_mut().q.extend(r);
    }
    fn read(&mut self, n: usize, want: usize) -> Result<(), String> {
        let c = &mut self.c;
        let mut got = 0;
        loop {
            let b = &mut self.buf[got..n];
            match husk(|| c.read(b)) {
                Ok(k) if got + k == want => return Ok(()),
                // less than the buffer holds, and not the end
                Ok(k) if k > 0 && got + k < want => got += k,
                r => return Err(format!("HARNESS: read({}) gives {:?} after {} of {}", n, r, got, want)),
            }
        }
    }
    /// number of bytes this operation moves
    fn op(&mut self, o: Op) -> Result<usize, String> {
        match o {
            W(n) => {
                let b = std::mem::take(&mut self.buf);
                let r = {
                    let c = &mut self.c;
                    let s = &b[..n];
                    husk(|| c.write_all(s).is_ok())
                };
                self.buf = b;
                if !r {
                    return Err("HARNESS: write fails".into());
                }
                Ok(n)
            }
            Flush => {
                let c = &mut self.c;
                let _ = husk(|| c.flush());
                Ok(0)
            }
            R(n, k) => {
                let d = std::mem::take(&mut self.buf);
                self.send(APP, &d[..n]);
                self.buf = d;
                let mut left = n;
                while left > 0 {
                    let x = left.min(k);
                    self.read(x, x)?;
                    left -= x;
                }
                Ok(n)
            }
            Many(k, n) => {
                let d = std::mem::take(&mut self.buf);
                for _ in 0..k {
                    self.send(APP, &d[..n]);
                }
                self.buf = d;
                self.read(k * n, k * n)?;
                Ok(k * n)
            }
            EmptyThen(n) => {
                self.send(APP, &[]);
                self.send(APP, &[7; 64][..n]);
                self.read(n, n)?;
                Ok(n)
            }
            Hello => {
                self.send(HS, &hs(0, &[]));
                self.send(APP, &[7]);
                self.read(1, 1)?;
                Ok(5)
            }
            HelloSplit => {
                self.send(HS, &[0, 0]);
                self.send(HS, &[0, 0]);
                self.send(APP, &[7]);
                self.read(1, 1)?;
                Ok(5)
            }
            ReadNothing => {
                self.read(0, 0)?;
                Ok(0)
            }
            ReadBlock => {
                // the client reports the failure as the end of the stream or as an error, as it likes
                let b = &mut self.buf[..10];
                let c = &mut self.c;
                match husk(|| c.read(b).map_err(drop)) {
                    Ok(n) if n > 0 => Err("HARNESS: data from nowhere".into()),
                    _ => Ok(0),
                }
            }
            ReadInterrupted => {
                self.p.slim.borrow_mut().read_err = Some(ErrorKind::Interrupted);
                self.send(APP, &[7]);
                self.read(1, 1)?;
                Ok(1)
            }
            WriteErr => {
                self.p.slim.borrow_mut().write_err = Some(ErrorKind::WouldBlock);
                let c = &mut self.c;
                husk(|| c.write_all(b"refused").map_err(drop).ok());
                Ok(7)
            }
            Get => {
                let c = &mut self.c;
                husk(|| {
                    c.reader();
                    c.writer();
                });
                Ok(0)
            }
        }
    }
}

fn conn() -> Result<Conn, String> {
    let (run, _q, _e) = scripted_peer(default_cfg(), eof);
    let p = pipe(&run);
    let c = connect(&run, &p).map_err(|e| format!("the plain conforming handshake fails: {}", e))?;
    p.on.set(true);
    Ok(Conn { c, p, run, buf: pattern(3, (1 << 20) + 64) })
}

/// the word repeated `reps` times on one connection
/// `lag`: so many bytes always stay unread
fn history(word: &[Op], reps: usize, chunk: usize, lag: usize) -> Result<String, String> {
    let base = live();
    let mut c = conn()?;
    c.p.slim.borrow_mut().chunk = chunk;
    if lag > 0 {
        c.send(APP, &pattern(4, lag + 1));
        c.read(1, 1)?;
    }
    for i in 0..reps {
        for &o in word {
            if o == ReadBlock && lag > 0 {
                continue;
            }
            peak_from_here();
            let before = live();
            let n = c.op(o)?;
            let (held, need) = (live() - base, peak() - before);
            if held > CONST {
                return Err(format!("after {} repetitions the connection holds {} bytes between calls, with {} bytes unread", i + 1, held, lag));
            }
            if need > CONST + 8 * n as i64 {
                return Err(format!("repetition {}: {:?} needs {} bytes", i + 1, o, need));
            }
        }
    }
    let Conn { c: client, .. } = c;
    husk(|| drop(client));
    if live() - base > CONST {
        return Err(format!("{} bytes are left behind by a dropped connection", live() - base));
    }
    Ok("bounded".into())
}

fn main() {
    let c = Ctx::new("C27", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every byte husk allocates is counted (blocks allocated inside husk and outside the transport of the harness). (a) Hostile lengths: while the peer has sent n bytes, \
         husk never holds more than 256 KiB + 64 n, whatever the length fields say. (b) On an established connection every operation word is repeated until any leak of a few \
         bytes per repetition exceeds the bound: between calls, with at most 5000 bytes unread, a connection holds at most 256 KiB and a call that moves n bytes needs at most 256 KiB + 8 n \
         more. (c) Connections that succeeded or failed in every way leave nothing behind that adds up.",
    );
    c.assume("heap allocations of husk and of what it calls; stack and what the transport allocates are not counted");
    // ---- (a) every length field says anything
    let mut rich = default_cfg();
    rich.ext = Some(ext_block(&[(11, vec![1, 0]), (10, vec![0, 2, 0, 23]), (13, vec![0, 2, 4, 1]), (0xff01, vec![0])]));
    rich.certs = vec![pattern(1, 20), pattern(2, 5)];
    rich.session_id = vec![1; 4];
    let flights: Vec<(&str, Vec<u8>)> = vec![
        ("records", [rich.server_hello(), rich.certificate(), rich.ske(), rich.shd()].iter().flat_map(|m| rec(HS, m)).collect()),
        ("single", rec(HS, &rich.flight())),
    ];
    c.bound("server flight in two packings: 1 to 4 adjacent bytes anywhere set to 00, 01, 3f, 7f or ff; whole, cut off right behind, or followed by 18 KiB of filler");
    for (n, f) in &flights {
        c.par(f.len(), |i| {
            for w in 1..=4usize {
                for v in [0u8, 1, 0x3f, 0x7f, 0xff] {
                    for cut in 0..3 {
                        if i + w > f.len() {
                            continue;
                        }
                        c.case(&format!("lengths/{}/{}/{}/{:02x}/{}", n, i, w, v, cut), || {
                            let mut x = f.clone();
                            x[i..i + w].fill(v);
                            match cut {
                                1 => x.truncate(i + w),
                                2 => x.extend(rec(HS, &vec![0u8; 1 << 14])),
                                _ => {}
                            }
                            attempt(raw_world(rich.clone(), x), true)
                        });
                    }
                }
            }
        });
    }
    c.bound("first record and protected records of an established and a nearly established connection: every type and 14 lengths of record; handshake messages of every type declaring 10 lengths up to 2^24-1");
    let decl = [0usize, 1, 4, 255, 256, 65535, 65536, 1 << 20, 1 << 23, (1 << 24) - 1];
    c.par(256, |t| {
        let t = t as u8;
        for l in [0usize, 1, 2, 3, 4, 100, 255, 256, 16384, 16385, 18432, 18433, 40000, 65535] {
            for have in [0usize, 4, 200] {
                c.case(&format!("record/{}/{}/{}", t, l, have), || {
                    let mut r = vec![t, 3, 3, (l >> 8) as u8, l as u8];
                    r.extend(vec![0u8; have.min(l)]);
                    attempt(raw_world(default_cfg(), r), true)
                });
            }
        }
        for l in decl {
            for have in [0usize, 3, 8, 300] {
                let m = || {
                    let mut m = vec![t, (l >> 16) as u8, (l >> 8) as u8, l as u8];
                    m.extend(vec![0xffu8; have]);
                    m
                };
                c.case(&format!("message/{}/{}/{}", t, l, have), || attempt(raw_world(default_cfg(), rec(HS, &m())), true));
                if t < 24 {
                    c.case(&format!("message-ccs/{}/{}/{}", t, l, have), || attempt(after_ccs(vec![(HS, m())], false), true));
                    c.case(&format!("message-post/{}/{}/{}", t, l, have), || attempt(after_ccs(vec![(HS, m()), (APP, vec![1]), (HS, vec![0; 50]), (APP, vec![2])], true), true));
                }
            }
        }
    });
    // ---- real long messages: linear
    let sizes: Vec<usize> = if th { vec![1, 100, 10_000, 65_000, 300_000, 2_000_000, 8_000_000] } else { vec![1, 100, 10_000, 65_000, 300_000] };
    c.bound(format!("certificate lists of {:?} bytes made of certificates of 1, 2, 7, 100 and 60000 bytes, extensions of up to 65 KB in entries of 0, 1 and 1000 bytes, records of 64, 1000 and 16384 bytes", sizes));
    let mut longs: Vec<(String, Cfg, usize)> = Vec::new();
    for &tot in &sizes {
        for &one in &[1usize, 2, 7, 100, 60_000] {
            for &r in &[64usize, 1000, 1 << 14] {
                if tot / (one + 3) > 3_000_000 || (r == 64 && tot > 100_000) {
                    continue;
                }
                let mut cfg = default_cfg();
                cfg.certs = vec![pattern(9, one); (tot / (one + 3)).max(1)];
                longs.push((format!("certs/{}/{}/{}", tot, one, r), cfg, r));
            }
        }
    }
    for &e in &[0usize, 1, 1000] {
        for &k in &[1usize, 10, 10_000] {
            for &r in &[64usize, 1 << 14] {
                let k = k.min(65_000 / (e + 4));
                let mut cfg = default_cfg();
                let l: Vec<_> = (0..k).map(|i| (1000 + i as u16, vec![1u8; e])).collect();
                cfg.ext = Some(ext_block(&l));
                longs.push((format!("ext/{}/{}/{}", e, k, r), cfg, r));
            }
        }
    }
    c.par(longs.len(), |i| {
        let (n, cfg, r) = &longs[longs.len() - 1 - i];
        c.case(&format!("long/{}", n), || {
            let r = *r;
            let f = cfg.flight();
            let mut st = 0;
            attempt(
                world(cfg.clone(), move |s| {
                    st += 1;
                    match st {
                        1 => Feed::Bytes(recs(HS, &f, r)),
                        2 => match s.finished() {
                            Some(m) => {
                                let mut o = rec(CCS, &[1]);
                                o.extend(s.seal(HS, &m));
                                o.extend(s.seal(APP, b"ok"));
                                Feed::Bytes(o)
                            }
                            None => Feed::Eof,
                        },
                        _ => Feed::Eof,
                    }
                }),
                true,
            )
        });
    });
    // ---- (c) nothing adds up over connections
    let reps = if th { 200 } else { 40 };
    c.bound(format!("{} connections of each kind: every byte of the flight set to 00 or ff, every truncation, wrong things after ChangeCipherSpec, every way a connection ends", reps));
    for (n, f) in &flights {
        c.par(f.len(), |i| {
            for v in [0u8, 0xff] {
                if f[i] != v {
                    c.case(&format!("again/{}/{}/{:02x}", n, i, v), || {
                        repeated(
                            &|| {
                                let mut x = f.clone();
                                x[i] = v;
                                raw_world(rich.clone(), x)
                            },
                            if th { reps } else { 12 },
                        )
                    });
                }
            }
            c.case(&format!("again/{}/{}/cut", n, i), || repeated(&|| raw_world(rich.clone(), f[..i].to_vec()), if th { reps } else { 12 }));
        });
    }
    let ends: Vec<(&str, bool, Vec<(u8, Vec<u8>)>)> = vec![
        ("no-finished", false, vec![]),
        ("wrong-finished", false, vec![(HS, hs(20, &[0; 12]))]),
        ("short-finished", false, vec![(HS, hs(20, &[0; 11]))]),
        ("data-early", false, vec![(APP, vec![1; 100])]),
        ("alert-early", false, vec![(ALERT, vec![2, 40])]),
        ("long-finished", false, vec![(HS, vec![20, 1, 0, 0]); 3]),
        ("closed", true, vec![(ALERT, vec![1, 0])]),
        ("cut-off", true, vec![]),
        ("data", true, vec![(APP, vec![1; 1000]); 5]),
        ("big-data", true, vec![(APP, vec![1; 1 << 14]); 5]),
        ("alert", true, vec![(APP, vec![1; 1000]), (ALERT, vec![2, 80])]),
        ("bad-alert", true, vec![(APP, vec![1; 1000]), (ALERT, vec![9, 99])]),
        ("half-message", true, vec![(HS, vec![11, 1, 0, 0]), (HS, vec![0; 1 << 14]), (HS, vec![0; 1 << 14])]),
        ("oversize", true, vec![(APP, vec![1; (1 << 14) + 1])]),
        ("ccs", true, vec![(CCS, vec![1])]),
        ("hello-requests", true, vec![(HS, hs(0, &[])); 20]),
        ("server-hello", true, vec![(HS, rich.server_hello())]),
        ("bad-type", true, vec![(99, vec![1])]),
    ];
    c.par(ends.len(), |i| {
        let (n, fin, v) = &ends[i];
        c.case(&format!("again/end/{}", n), || repeated(&|| after_ccs(v.clone(), *fin), reps));
    });
    // dropped with data unread, after failed writes, and never used
    c.par(LIGHT.len() + HEAVY.len(), |i| {
        let o = if i < LIGHT.len() { LIGHT[i] } else { HEAVY[i - LIGHT.len()] };
        c.case(&format!("again/use/{:?}", o), || {
            let mut early = 0;
            for k in 0..reps {
                let mut x = conn()?;
                x.op(o)?;
                x.send(APP, &[1; 5000]);
                x.read(17, 17)?;
                let Conn { c: client, .. } = x;
                husk(|| drop(client));
                if k == reps / 4 {
                    early = live();
                }
            }
            if live() > early {
                return Err(format!("dropped connections leave {} bytes behind", live() - early));
            }
            Ok("all returned".into())
        });
    });
    // ---- (b) long lives
    let light = if th { 200_000 } else { 34_000 };
    // enough for a leak of a single byte per operation
    let alone = (CONST + CONST / 8) as usize;
    let pairs = if th { 60_000 } else { 5_000 };
    let heavy = if th { 3_000 } else { 300 };
    c.bound(format!(
        "one connection: each of {} light operations {} times (at varying lag {} times), all ordered pairs of them {} times, each of {} heavy operations alone and paired with every light one (both orders) {} times; whole and 3-byte transport reads; with 0, 1, 50, 1000 or 5000 bytes always left unread",
        LIGHT.len(), alone, light / 2, pairs, HEAVY.len(), heavy
    ));
    c.par(LIGHT.len(), |i| {
        c.case(&format!("life/{:?}", LIGHT[i]), || history(&[LIGHT[i]], alone, 0, 0));
        for lag in [1, 50, 1000] {
            c.case(&format!("life/lag{}/{:?}", lag, LIGHT[i]), || history(&[LIGHT[i]], light / 2, 0, lag));
        }
        c.case(&format!("life/chunk/{:?}", LIGHT[i]), || history(&[LIGHT[i]], light / 8, 3, 0));
    });
    c.par(LIGHT.len() * LIGHT.len(), |i| {
        let w = [LIGHT[i / LIGHT.len()], LIGHT[i % LIGHT.len()]];
        c.case(&format!("life/{:?}", w), || history(&w, pairs, 0, 0));
    });
    c.par(HEAVY.len() * (LIGHT.len() + 1), |i| {
        let (h, l) = (HEAVY[i % HEAVY.len()], i / HEAVY.len());
        if l == LIGHT.len() {
            c.case(&format!("life/{:?}", h), || history(&[h], heavy, 0, 0));
            for lag in [1, 5000] {
                c.case(&format!("life/lag{}/{:?}", lag, h), || history(&[h], heavy, 0, lag));
            }
            c.case(&format!("life/chunk/{:?}", h), || history(&[h], heavy / 10, 3, 0));
        } else {
            c.case(&format!("life/{:?}", [h, LIGHT[l]]), || history(&[h, LIGHT[l]], heavy / 3, 0, 0));
            c.case(&format!("life/{:?}", [LIGHT[l], h]), || history(&[LIGHT[l], h], heavy / 3, 0, 0));
        }
    });
    c.bound("single writes of 1 MiB and reads of as much at once, each followed by every light operation, 3 rounds: nothing of that size is kept");
    c.par(HUGE.len() * LIGHT.len(), |i| {
        let w = [HUGE[i / LIGHT.len()], LIGHT[i % LIGHT.len()]];
        c.case(&format!("huge/{:?}", w), || history(&w, 3, 0, 0));
    });
    c.finish()
}
