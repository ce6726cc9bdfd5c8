#![allow(unused_imports)]
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::util::*;
use num_bigint::BigUint;
use std::io::{ErrorKind, Read, Write};

use husk::TlsClient;
use rand::rngs::OsRng;
use std::cell::Cell;
use std::io;
use std::rc::Rc;

/// the model world during the handshake, afterwards only the records around 2^24
#[derive(Clone)]
struct Pipe {
    end: End,
    on: Rc<Cell<bool>>,
    keep: Rc<Cell<bool>>,
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.end.read(buf)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.on.get() && !self.keep.get() {
            return Ok(buf.len());
        }
        self.end.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.end.flush()
    }
}

fn main() {
    let (run, _q, _e) = scripted_peer(default_cfg(), eof);
    let p = Pipe { end: End(run.world.clone()), on: Rc::default(), keep: Rc::default() };
    getrandom::script(Vec::new(), SEED);
    let mut c = match TlsClient::new(p.clone(), p.clone(), OsRng) {
        Ok(c) => c,
        Err(_) => return expect(false, "no handshake"),
    };
    p.on.set(true);
    run.sync();
    let (keys, first) = {
        let s = run.server.borrow();
        (s.keys.clone().unwrap(), s.client_seq)
    };
    let m = 1u64 << 24;
    for i in first..m + 20 {
        let near = i + 20 > m;
        p.keep.set(near);
        let at = run.world.borrow().out.len();
        c.write_all(&[i as u8]).unwrap();
        if near {
            let out = run.world.borrow().out[at..].to_vec();
            expect(open(&keys.cw, &keys.civ, i, &out) == Some(vec![i as u8]), "a record does not open under its sequence number");
        }
    }
}
