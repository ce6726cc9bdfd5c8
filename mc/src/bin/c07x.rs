//! C07 and C08 beyond 2^32 records: the record layer's own writer and reader, driven with a stand-in
//! cipher that does no arithmetic and judges the nonce and the additional data it is given.
//! With `fresh` only C09 is judged: no nonce comes twice.
//! usage: c07x <write|read|fresh> <records> <deadline in seconds>; prints the number of records judged.
use husk::cipher::{Decryptor, Encryptor};
use husk::tls::{ContentType, Message, Record, TlsReader, TlsWriter};
use husk::tls_result::TlsResult;
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::process::exit;
use std::rc::Rc;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const IV: [u8; 12] = [0x1f, 0x2e, 0x3d, 0x4c, 0x5b, 0x6a, 0x79, 0x88, 0x97, 0xa6, 0xb5, 0xc4];
/// calls of the cipher so far
static CALLS: AtomicU64 = AtomicU64::new(0);
static FRESH_ONLY: AtomicBool = AtomicBool::new(false);

/// the first nonces, where only their freshness counts
static FRESH: Mutex<Option<HashSet<[u8; 12]>>> = Mutex::new(None);

fn bad(what: String) -> ! {
    println!("BAD {}", what);
    exit(1)
}

fn judge(nonce: &[u8], ad: &[u8], len: usize) {
    let n = CALLS.load(Relaxed);
    CALLS.store(n + 1, Relaxed);
    if FRESH_ONLY.load(Relaxed) {
        let mut f = FRESH.lock().unwrap();
        let seen = f.get_or_insert_with(HashSet::new);
        let nonce: [u8; 12] = nonce.try_into().unwrap_or_else(|_| bad(format!("record {}: nonce {:02x?}", n, nonce)));
        if n < 1 << 16 || n.is_power_of_two() {
            if !seen.insert(nonce) {
                bad(format!("record {} is sealed under the nonce {:02x?} of an earlier record", n, nonce))
            }
        } else if seen.contains(&nonce) {
            bad(format!("record {} is sealed under the nonce {:02x?} of an earlier record", n, nonce))
        }
        return;
    }
    let mut want = [0u8; 12];
    want[4..].copy_from_slice(&n.to_be_bytes());
    for i in 0..12 {
        want[i] ^= IV[i];
    }
    let mut wad = [0u8; 13];
    wad[..8].copy_from_slice(&n.to_be_bytes());
    wad[8..].copy_from_slice(&[23, 3, 3, 0, len as u8]);
    if nonce != want || ad != wad {
        bad(format!("record {}: nonce {:02x?}, additional data {:02x?}", n, nonce, ad))
    }
}

struct Stand;
impl Encryptor for Stand {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], ad: &[u8]) -> Vec<u8> {
        judge(nonce, ad, plain.len());
        plain.to_vec()
    }
}
impl Decryptor for Stand {
    fn decrypt(&mut self, nonce: &[u8], enc: &[u8], ad: &[u8]) -> TlsResult<Vec<u8>> {
        judge(nonce, ad, enc.len());
        Ok(enc.to_vec())
    }
    fn mac_len(&self) -> usize {
        0
    }
}

struct Out {
    n: usize,
    b: [u8; 64],
}
impl Write for Out {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        if self.n + d.len() > 64 {
            return Err(io::Error::new(io::ErrorKind::Other, "too long"));
        }
        self.b[self.n..self.n + d.len()].copy_from_slice(d);
        self.n += d.len();
        Ok(d.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// records of one byte every 16th time, empty ones otherwise
struct In {
    at: Rc<Cell<u64>>,
    pos: usize,
}
impl Read for In {
    fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
        let one = self.at.get() % 16 == 0;
        let h = [23, 3, 3, 0, one as u8, 0x5a];
        let end = 5 + one as usize;
        let n = d.len().min(end - self.pos);
        d[..n].copy_from_slice(&h[self.pos..self.pos + n]);
        self.pos += n;
        if self.pos == end {
            self.pos = 0;
            self.at.set(self.at.get() + 1);
        }
        Ok(n)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let total: u64 = a[2].parse().unwrap();
    let t0 = Instant::now();
    let limit = Duration::from_secs(a[3].parse().unwrap());
    let late = |i: u64| i % (1 << 20) == 0 && t0.elapsed() > limit;
    let mut i = 0u64;
    FRESH_ONLY.store(a[1] == "fresh", Relaxed);
    if a[1] != "read" {
        let mut w = TlsWriter::new(Out { n: 0, b: [0; 64] });
        w.set_iv(IV.to_vec());
        w.set_encryptor(Box::new(Stand));
        while i < total && !late(i) {
            let one = i % 16 == 0;
            let r = if one {
                w.write_application_data(&[0x5a])
            } else {
                w.write_record(Record::new(ContentType::ApplicationDataTy, 3, 3, Vec::new()))
            };
            if r.is_err() && a[1] == "fresh" {
                // no more records: no reuse
                break;
            }
            if let Err(e) = r {
                bad(format!("record {}: writing it fails with {:?}", i, e.kind))
            }
            let want = [23, 3, 3, 0, one as u8, 0x5a];
            let o = w.get_mut();
            if a[1] == "write" && (o.b[..o.n] != want[..5 + one as usize] || CALLS.load(Relaxed) != i + 1) {
                bad(format!("record {}: {:02x?} on the wire", i, &o.b[..o.n]))
            }
            o.n = 0;
            i += 1;
        }
    } else {
        let at = Rc::new(Cell::new(0));
        let mut r = TlsReader::new(In { at: at.clone(), pos: 0 });
        r.set_iv(IV.to_vec());
        r.set_decryptor(Box::new(Stand));
        while i < total && !late(i) {
            let one = i % 16 == 0;
            match r.read_message() {
                Ok(Message::ApplicationDataMessage(d)) if d == [0x5a][..one as usize] => {}
                Ok(_) => bad(format!("record {}: something else was delivered", i)),
                Err(e) => bad(format!("record {}: reading it fails with {:?}", i, e.kind)),
            }
            i += 1;
            if at.get() != i || CALLS.load(Relaxed) != i {
                // reading ahead is not forbidden; it only ends this comparison
                println!("{}", i);
                return;
            }
        }
    }
    println!("{}", i)
}
