//! Reference TLS 1.2 server (ECDHE + CHACHA20-POLY1305, RFC 5246 / 4492 / 7905), built only on
//! `refcrypto`: it parses what the client put on the wire and produces what a conforming server
//! may answer.  It never calls the code under test.
use crate::refcrypto::*;
use num_bigint::BigUint;
use std::sync::OnceLock;

pub const CCS: u8 = 20;
pub const ALERT: u8 = 21;
pub const HS: u8 = 22;
pub const APP: u8 = 23;

pub const SUITE: [u8; 2] = [0xcc, 0xa8];

pub fn rec(ty: u8, payload: &[u8]) -> Vec<u8> {
    rec_v(ty, (3, 3), payload)
}

pub fn rec_v(ty: u8, v: (u8, u8), payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() <= 0xffff);
    let mut r = vec![ty, v.0, v.1, (payload.len() >> 8) as u8, payload.len() as u8];
    r.extend_from_slice(payload);
    r
}

/// Split a payload over records no longer than `max`.
pub fn recs(ty: u8, payload: &[u8], max: usize) -> Vec<u8> {
    payload.chunks(max).flat_map(|c| rec(ty, c)).collect()
}

pub fn hs(ty: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut m = vec![ty, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    m.extend_from_slice(body);
    m
}

pub fn nonce(iv: &[u8; 12], seq: u64) -> [u8; 12] {
    let mut n = *iv;
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}

pub fn ad(seq: u64, ty: u8, v: (u8, u8), len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend_from_slice(&[ty, v.0, v.1, (len >> 8) as u8, len as u8]);
    a
}

pub fn seal_v(key: &[u8; 32], iv: &[u8; 12], seq: u64, ty: u8, v: (u8, u8), pt: &[u8]) -> Vec<u8> {
    let ct = aead_seal(key, &nonce(iv, seq), pt, &ad(seq, ty, v, pt.len()));
    rec_v(ty, v, &ct)
}

pub fn seal(key: &[u8; 32], iv: &[u8; 12], seq: u64, ty: u8, pt: &[u8]) -> Vec<u8> {
    seal_v(key, iv, seq, ty, (3, 3), pt)
}

pub fn open(key: &[u8; 32], iv: &[u8; 12], seq: u64, record: &[u8]) -> Option<Vec<u8>> {
    if record.len() < 5 + 16 {
        return None;
    }
    let len = record.len() - 5 - 16;
    aead_open(key, &nonce(iv, seq), &record[5..], &ad(seq, record[0], (record[1], record[2]), len))
}

/// Split a byte stream into complete records; returns (records, unconsumed tail).
pub fn split_records(mut b: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut v = Vec::new();
    while b.len() >= 5 {
        let n = 5 + ((b[3] as usize) << 8 | b[4] as usize);
        if b.len() < n {
            break;
        }
        v.push(b[..n].to_vec());
        b = &b[n..];
    }
    (v, b.to_vec())
}

#[derive(Clone, Debug, PartialEq)]
pub struct Keys {
    pub master: Vec<u8>,
    pub cw: [u8; 32],
    pub sw: [u8; 32],
    pub civ: [u8; 12],
    pub siv: [u8; 12],
}

pub fn derive(pre_master: &[u8], cr: &[u8], sr: &[u8]) -> Keys {
    let mut seed = cr.to_vec();
    seed.extend_from_slice(sr);
    let master = prf(pre_master, "master secret", &seed, 48);
    let mut seed = sr.to_vec();
    seed.extend_from_slice(cr);
    let kb = prf(&master, "key expansion", &seed, 88);
    Keys {
        master,
        cw: kb[..32].try_into().unwrap(),
        sw: kb[32..64].try_into().unwrap(),
        civ: kb[64..76].try_into().unwrap(),
        siv: kb[76..88].try_into().unwrap(),
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub random: [u8; 32],
    pub session_id: Vec<u8>,
    /// raw extension block including its two-byte length, or nothing at all
    pub ext: Option<Vec<u8>>,
    pub certs: Vec<Vec<u8>>,
    pub d: BigUint,
    pub public: Vec<u8>,
    pub sig: Vec<u8>,
    pub sigalg: (u8, u8),
}

pub fn default_cfg() -> Cfg {
    static C: OnceLock<Cfg> = OnceLock::new();
    C.get_or_init(|| {
        let d = BigUint::from(2u32);
        let mut random = [0u8; 32];
        for i in 0..32 {
            random[i] = 0xa0 ^ (7 * i as u8);
        }
        Cfg {
            random,
            session_id: (1..=8).collect(),
            ext: None,
            certs: vec![vec![0x30, 0x03, 0x02, 0x01, 0x05, 0x77, 0x21]],
            public: encode_pt(&curve().mul(&d, &curve().g())),
            d,
            sig: vec![0x5a; 12],
            sigalg: (4, 1),
        }
    })
    .clone()
}

/// Conforming servers of many shapes: what one of them may choose, alone and together.
pub fn shapes() -> Vec<(String, Cfg)> {
    let base = default_cfg();
    let pat = |t: u8, n: usize| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(29) ^ t.wrapping_mul(37) ^ (i >> 8) as u8).collect() };
    let points = || Some(ext_block(&[(11, vec![1, 0])]));
    let both = || Some(ext_block(&[(0xff01, vec![0]), (11, vec![3, 0, 1, 2])]));
    let mut v: Vec<(String, Cfg)> = vec![];
    let mut add = |n: &str, f: &dyn Fn(&mut Cfg)| {
        let mut g = base.clone();
        f(&mut g);
        v.push((n.to_string(), g));
    };
    for n in [0usize, 1, 16, 31, 32] {
        add(&format!("session{}", n), &|g| g.session_id = pat(1, n));
    }
    add("ext-empty", &|g| g.ext = Some(vec![0, 0]));
    add("ext-points", &|g| g.ext = points());
    add("ext-both", &|g| g.ext = both());
    for n in [2usize, 3, 4, 5, 10, 20] {
        add(&format!("chain{}", n), &|g| g.certs = (0..n).map(|i| pat(i as u8, 3 + i * 11 % 40)).collect());
    }
    add("cert-large", &|g| g.certs = vec![pat(3, 20_000)]);
    add("cert-one-byte", &|g| g.certs = vec![vec![0]]);
    for n in [1usize, 64, 128, 256, 512] {
        add(&format!("sig{}", n), &|g| g.sig = pat(5, n));
    }
    add("random-zero", &|g| g.random = [0; 32]);
    add("random-ones", &|g| g.random = [0xff; 32]);
    add("random-sentinel", &|g| g.random[24..].copy_from_slice(b"DOWNGRD\x01"));
    add("random-equals-session", &|g| g.session_id = g.random.to_vec());
    add("share3", &|g| *g = g.clone().with_d(BigUint::from(3u32)));
    add("share-last", &|g| *g = g.clone().with_d(&curve().n - 1u32));
    add("share-large", &|g| *g = g.clone().with_d(&curve().n >> 1u32));
    add("typical", &|g| {
        g.session_id = pat(8, 32);
        g.ext = both();
        g.certs = vec![pat(1, 1200), pat(2, 1100), pat(3, 900)];
        g.sig = pat(4, 256);
    });
    add("bare", &|g| {
        g.session_id = vec![];
        g.certs = vec![pat(1, 700), pat(2, 900)];
        g.sig = pat(4, 256);
    });
    add("odd", &|g| {
        g.session_id = vec![0; 32];
        g.ext = points();
        g.certs = vec![vec![1]; 7];
        g.sig = vec![0; 71];
        g.random = [3; 32];
    });
    v
}

impl Cfg {
    pub fn with_d(mut self, d: BigUint) -> Cfg {
        self.public = encode_pt(&curve().mul(&d, &curve().g()));
        self.d = d;
        self
    }
    pub fn server_hello(&self) -> Vec<u8> {
        let mut b = vec![3, 3];
        b.extend_from_slice(&self.random);
        b.push(self.session_id.len() as u8);
        b.extend_from_slice(&self.session_id);
        b.extend_from_slice(&SUITE);
        b.push(0);
        if let Some(e) = &self.ext {
            b.extend_from_slice(e);
        }
        hs(2, &b)
    }
    pub fn certificate(&self) -> Vec<u8> {
        let mut l = Vec::new();
        for c in &self.certs {
            l.extend_from_slice(&[(c.len() >> 16) as u8, (c.len() >> 8) as u8, c.len() as u8]);
            l.extend_from_slice(c);
        }
        let mut b = vec![(l.len() >> 16) as u8, (l.len() >> 8) as u8, l.len() as u8];
        b.extend_from_slice(&l);
        hs(11, &b)
    }
    pub fn ske_with(&self, curve_type: u8, curve: u16, point: &[u8]) -> Vec<u8> {
        let mut b = vec![curve_type, (curve >> 8) as u8, curve as u8, point.len() as u8];
        b.extend_from_slice(point);
        b.push(self.sigalg.0);
        b.push(self.sigalg.1);
        b.push((self.sig.len() >> 8) as u8);
        b.push(self.sig.len() as u8);
        b.extend_from_slice(&self.sig);
        hs(12, &b)
    }
    pub fn ske(&self) -> Vec<u8> {
        self.ske_with(3, 23, &self.public)
    }
    pub fn shd(&self) -> Vec<u8> {
        hs(14, &[])
    }
    pub fn flight(&self) -> Vec<u8> {
        let mut f = self.server_hello();
        f.extend(self.certificate());
        f.extend(self.ske());
        f.extend(self.shd());
        f
    }
}

/// Extension block from (type, body) pairs.
pub fn ext_block(list: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut l = Vec::new();
    for (t, b) in list {
        l.extend_from_slice(&[(t >> 8) as u8, *t as u8, (b.len() >> 8) as u8, b.len() as u8]);
        l.extend_from_slice(b);
    }
    let mut o = vec![(l.len() >> 8) as u8, l.len() as u8];
    o.extend(l);
    o
}

/// What the server has understood of the client so far.
pub struct Server {
    pub cfg: Cfg,
    /// bytes of the client stream consumed so far
    pub used: usize,
    /// records of the client: (type, version, plaintext payload, protected?)
    pub records: Vec<(u8, (u8, u8), Vec<u8>, bool)>,
    pub hsbuf: Vec<u8>,
    /// handshake messages of the client, complete with header
    pub msgs: Vec<Vec<u8>>,
    pub client_random: Option<[u8; 32]>,
    pub client_point: Option<Vec<u8>>,
    pub keys: Option<Keys>,
    pub ccs_seen: bool,
    pub client_seq: u64,
    pub seq: u64,
    pub problems: Vec<String>,
    /// the server side of the transcript; None = the conforming flight of `cfg`
    pub flight_override: Option<Vec<u8>>,
    /// the server's (tampered) view of the client's messages, keyed by index
    pub view: Option<Box<dyn Fn(usize, Vec<u8>) -> Vec<u8>>>,
    /// derive the keys from the client's real messages even when `view` alters the transcript
    pub true_keys: bool,
    pub check_finished: bool,
    pub client_finished_ok: bool,
}

impl Server {
    pub fn new(cfg: Cfg) -> Server {
        Server {
            cfg,
            used: 0,
            records: vec![],
            hsbuf: vec![],
            msgs: vec![],
            client_random: None,
            client_point: None,
            keys: None,
            ccs_seen: false,
            client_seq: 0,
            seq: 0,
            problems: vec![],
            flight_override: None,
            view: None,
            true_keys: false,
            check_finished: true,
            client_finished_ok: false,
        }
    }

    fn problem(&mut self, s: String) {
        if self.problems.len() < 8 {
            self.problems.push(s);
        }
    }

    /// Take in the client's stream (always the whole of it, from the first byte).
    pub fn absorb(&mut self, out: &[u8]) {
        let (rs, _tail) = split_records(&out[self.used..]);
        for r in rs {
            self.used += r.len();
            self.record(&r);
        }
    }

    /// Take in a stretch of a very long protected stream: every record is counted and its header judged, the
    /// plaintext length added up, and every 61st one opened.  Returns the number of plaintext bytes.
    pub fn skim(&mut self, out: &[u8]) -> Result<usize, String> {
        let k = self.keys.clone().ok_or("no keys")?;
        let mut b = &out[self.used..];
        let mut total = 0;
        while b.len() >= 5 {
            let n = 5 + ((b[3] as usize) << 8 | b[4] as usize);
            if n > b.len() {
                break;
            }
            if b[0] != APP || b[1..3] != [3, 3] || n < 21 {
                return Err(format!("record {} of the client has the header {:?}", self.client_seq, &b[..5]));
            }
            if self.client_seq % 61 == 0 && open(&k.cw, &k.civ, self.client_seq, &b[..n]).is_none() {
                return Err(format!("the client's record does not open with sequence number {}", self.client_seq));
            }
            total += n - 21;
            self.client_seq += 1;
            self.used += n;
            b = &b[n..];
        }
        Ok(total)
    }

    /// Bytes of an incomplete record at the end of `out`.
    pub fn tail_len(&self, out: &[u8]) -> usize {
        out.len() - self.used
    }

    fn record(&mut self, r: &[u8]) {
        let ty = r[0];
        let ver = (r[1], r[2]);
        if ver != (3, 3) && !(self.msgs.is_empty() && ver == (3, 1)) {
            self.problem(format!("client record with version {:?}", ver));
        }
        let len = r.len() - 5;
        let mut protected = false;
        let pt = if self.ccs_seen {
            protected = true;
            let k = match &self.keys {
                Some(k) => k.clone(),
                None => {
                    self.problem("protected client record before key exchange".into());
                    return;
                }
            };
            match open(&k.cw, &k.civ, self.client_seq, r) {
                Some(p) => {
                    self.client_seq += 1;
                    p
                }
                None => {
                    self.problem(format!(
                        "client record (type {}, {} bytes) does not open under the negotiated client write key with sequence number {}",
                        ty, len, self.client_seq
                    ));
                    return;
                }
            }
        } else {
            r[5..].to_vec()
        };
        if pt.len() > 1 << 14 {
            self.problem(format!("client record longer than 2^14: {}", pt.len()));
        }
        self.records.push((ty, ver, pt.clone(), protected));
        match ty {
            CCS => {
                if pt != [1] || self.ccs_seen {
                    self.problem("bad ChangeCipherSpec from client".into());
                }
                if !self.hsbuf.is_empty() {
                    self.problem("client ChangeCipherSpec inside a handshake message".into());
                }
                self.ccs_seen = true;
                self.client_seq = 0;
            }
            HS => {
                if pt.is_empty() {
                    self.problem("empty handshake record from client".into());
                }
                self.hsbuf.extend_from_slice(&pt);
                while self.hsbuf.len() >= 4 {
                    let n = 4 + ((self.hsbuf[1] as usize) << 16 | (self.hsbuf[2] as usize) << 8 | self.hsbuf[3] as usize);
                    if self.hsbuf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = self.hsbuf.drain(..n).collect();
                    self.message(m);
                }
            }
            ALERT => {
                if pt.len() != 2 {
                    self.problem(format!("client alert of {} bytes", pt.len()));
                }
            }
            APP => {
                if !protected {
                    self.problem("unprotected application data from client".into());
                }
            }
            _ => self.problem(format!("unknown client record type {}", ty)),
        }
    }

    fn message(&mut self, m: Vec<u8>) {
        let i = self.msgs.len();
        let orig = m.clone();
        let m = match &self.view {
            Some(f) => f(i, m),
            None => m,
        };
        // what the server acts upon (as opposed to what it hashes)
        let acted = if self.true_keys { orig } else { m.clone() };
        let m_view = m;
        let m = acted;
        if m.is_empty() {
            self.problem("empty message".into());
            self.msgs.push(m_view);
            return;
        }
        match (i, m[0]) {
            (0, 1) => {
                if m.len() >= 38 {
                    self.client_random = Some(m[6..38].try_into().unwrap());
                }
                if let Err(e) = check_client_hello(&m) {
                    self.problem(e);
                }
            }
            (1, 16) => {
                let body = &m[4..];
                if body.len() < 2 || body[0] as usize != body.len() - 1 {
                    self.problem("malformed ClientKeyExchange".into());
                } else {
                    self.client_point = Some(body[1..].to_vec());
                }
            }
            (2, 20) => {
                if !self.ccs_seen {
                    self.problem("client Finished is not protected".into());
                }
            }
            _ => self.problem(format!("unexpected client handshake message #{} of type {}", i, m[0])),
        }
        self.msgs.push(m_view);
        if i == 1 {
            self.derive_keys();
        }
        if i == 2 && self.check_finished {
            let want = self.client_finished();
            if Some(&want) != self.msgs.get(2) {
                self.problem("client Finished carries wrong verify data".into());
            } else {
                self.client_finished_ok = true;
            }
        }
    }

    fn derive_keys(&mut self) {
        let pt = match self.client_point.as_ref().map(|p| decode_pt(p)) {
            Some(Some(p)) => Some(p),
            _ => {
                self.problem("client key share is not a valid uncompressed P-256 point".into());
                return;
            }
        };
        let shared = curve().mul(&self.cfg.d, &pt);
        let x = match shared {
            Some((x, _)) => be32(&x),
            None => {
                self.problem("shared point is infinity".into());
                return;
            }
        };
        let cr = self.client_random.unwrap_or([0; 32]);
        self.keys = Some(derive(&x, &cr, &self.cfg.random));
    }

    fn transcript(&self) -> Vec<u8> {
        let mut t = self.msgs.get(0).cloned().unwrap_or_default();
        match &self.flight_override {
            Some(f) => t.extend_from_slice(f),
            None => t.extend(self.cfg.flight()),
        }
        if let Some(m) = self.msgs.get(1) {
            t.extend_from_slice(m);
        }
        t
    }

    fn client_finished(&self) -> Vec<u8> {
        match &self.keys {
            Some(k) => hs(20, &prf(&k.master, "client finished", &sha256(&self.transcript()), 12)),
            None => Vec::new(),
        }
    }

    /// The server Finished message (plaintext), over everything including the client Finished.
    pub fn finished(&self) -> Option<Vec<u8>> {
        let k = self.keys.as_ref()?;
        let mut t = self.transcript();
        t.extend_from_slice(self.msgs.get(2)?);
        Some(hs(20, &prf(&k.master, "server finished", &sha256(&t), 12)))
    }

    pub fn finished_labelled(&self, label: &str, with_client_finished: bool) -> Option<Vec<u8>> {
        let k = self.keys.as_ref()?;
        let mut t = self.transcript();
        if with_client_finished {
            t.extend_from_slice(self.msgs.get(2)?);
        }
        Some(hs(20, &prf(&k.master, label, &sha256(&t), 12)))
    }

    /// Protect a record with the server write key and the next sequence number.
    pub fn seal(&mut self, ty: u8, pt: &[u8]) -> Vec<u8> {
        let k = self.keys.as_ref().expect("HARNESS: no keys yet");
        let r = seal(&k.sw, &k.siv, self.seq, ty, pt);
        self.seq += 1;
        r
    }

    /// Application bytes the client has sent, in order.
    pub fn app_data(&self) -> Vec<u8> {
        self.records.iter().filter(|r| r.0 == APP).flat_map(|r| r.2.clone()).collect()
    }

    pub fn alerts(&self) -> Vec<(usize, Vec<u8>, bool)> {
        self.records.iter().enumerate().filter(|(_, r)| r.0 == ALERT).map(|(i, r)| (i, r.2.clone(), r.3)).collect()
    }
}

/// Independent strict parse of the ClientHello: it must be well formed and offer exactly what the
/// client can do.
pub fn check_client_hello(m: &[u8]) -> Result<(), String> {
    let e = |s: &str| Err(format!("ClientHello: {}", s));
    if m.len() < 4 || m[0] != 1 {
        return e("type");
    }
    let b = &m[4..];
    let mut p = 0usize;
    let mut take = |n: usize| -> Result<Vec<u8>, String> {
        if p + n > b.len() {
            return Err("ClientHello: truncated".into());
        }
        p += n;
        Ok(b[p - n..p].to_vec())
    };
    if take(2)? != [3, 3] {
        return e("version is not 3.3");
    }
    take(32)?;
    let n = take(1)?[0] as usize;
    if n > 32 {
        return e("session id");
    }
    take(n)?;
    let l = take(2)?;
    let n = (l[0] as usize) << 8 | l[1] as usize;
    let suites = take(n)?;
    if suites != SUITE {
        return e("cipher suites are not exactly cca8");
    }
    let n = take(1)?[0] as usize;
    if take(n)? != [0] {
        return e("compression methods are not exactly null");
    }
    let l = take(2)?;
    let n = (l[0] as usize) << 8 | l[1] as usize;
    let ext = take(n)?;
    if 2 + 32 + 1 + b[34] as usize + 2 + 2 + 2 + 2 + n != b.len() {
        return e("trailing bytes");
    }
    let mut q = &ext[..];
    let mut seen = Vec::new();
    while !q.is_empty() {
        if q.len() < 4 {
            return e("extension header");
        }
        let t = (q[0] as u16) << 8 | q[1] as u16;
        let n = (q[2] as usize) << 8 | q[3] as usize;
        if q.len() < 4 + n {
            return e("extension length");
        }
        let body = &q[4..4 + n];
        if seen.contains(&t) {
            return e("duplicate extension");
        }
        seen.push(t);
        match t {
            10 if body != [0, 2, 0, 23] => return e("named curves are not exactly secp256r1"),
            11 if body != [1, 0] => return e("point formats are not exactly uncompressed"),
            13 if body != [0, 2, 4, 1] => return e("signature algorithms are not exactly rsa/sha256"),
            _ => {}
        }
        q = &q[4 + n..];
    }
    for t in [10, 11, 13] {
        if !seen.contains(&t) {
            return e("missing extension");
        }
    }
    Ok(())
}
