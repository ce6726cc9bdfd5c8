//! C13: no peer input crashes or hangs the client.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::{Aead, CipherSuite};
use husk::tls::{Message, TlsReader};
use mc::drive::*;
use mc::net::*;
use mc::refcrypto::curve;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{Read, Write};

/// A finite input that notices being polled for ever after its end.
struct Finite {
    data: Vec<u8>,
    pos: usize,
    idle: usize,
}
impl Read for Finite {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            self.idle += 1;
            if self.idle > 100 {
                panic!("LIVELOCK: the reader polls an exhausted stream for ever");
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Feed raw bytes as the peer's whole output.
fn raw(bytes: Vec<u8>, end: fn() -> Feed) -> Result<String, String> {
    let mut once = Some(bytes);
    let run = world(default_cfg(), move |_| match once.take() {
        Some(b) if !b.is_empty() => Feed::Bytes(b),
        _ => end(),
    });
    match run.connect() {
        Ok(_) => Err("established by bytes that hold no valid Finished".into()),
        Err(e) => Ok(format!("handshake error: {}", kind(&e))),
    }
}

/// the flight, each message in records of its own
fn rec_flight(g: &Cfg) -> Vec<u8> {
    [g.server_hello(), g.certificate(), g.ske(), g.shd()].iter().flat_map(|m| recs(HS, m, 1 << 14)).collect()
}

fn broken() -> Feed {
    Feed::Err(std::io::ErrorKind::ConnectionReset)
}

/// Use the connection after the handshake against these further peer bytes: every call has to return,
/// and the stream has to end.
fn exercise(mut e: Est, sizes: &[usize]) -> Result<String, String> {
    let mut zero = 0;
    let mut k = 0;
    let mut got = 0;
    while zero < 3 {
        let mut b = vec![0; sizes[k % sizes.len()]];
        k += 1;
        match e.c.read(&mut b) {
            Ok(n) if n > b.len() => return Err("read returns more than fits".into()),
            Ok(0) if b.is_empty() => {}
            Ok(0) => zero += 1,
            Ok(n) => got += n,
            Err(_) => zero += 1,
        }
        if k > 200_000 {
            return Err("reads never come to an end although the stream has".into());
        }
    }
    // these have to return, whatever they return
    let _ = e.c.write_all(b"still here");
    let _ = e.c.flush();
    let _ = e.c.close();
    let _ = e.c.read(&mut [0; 4]);
    Ok(if got > 0 { "data then end".into() } else { "end".to_string() })
}

fn post(sealed: bool, ty: u8, body: &[u8], sizes: &[usize]) -> Result<String, String> {
    let e = establish(default_cfg(), eof)?;
    if sealed {
        e.send(ty, body);
    } else {
        e.push(rec(ty, body));
    }
    exercise(e, sizes)
}

/// A key-holding peer at the record layer: all four ways of reading.
fn layer(records: &[(u8, Vec<u8>)]) -> Result<String, String> {
    let key = [3u8; 32];
    let iv = [4u8; 12];
    let mut data = Vec::new();
    for (i, (t, b)) in records.iter().enumerate() {
        data.extend(seal(&key, &iv, i as u64, *t, b));
    }
    let mut last = String::new();
    for way in 0..4 {
        let mut r = TlsReader::new(Finite { data: data.clone(), pos: 0, idle: 0 });
        r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
        r.set_iv(iv.to_vec());
        // to the first error, and then a few calls more
        let mut errs = 0;
        let mut calls = 0;
        while errs < 3 {
            calls += 1;
            if calls > 100_000 {
                return Err("the reader returns messages for ever from a finite stream".into());
            }
            let e = match way {
                0 => r.read_application_data().err(),
                1 => r.read_handshake().err(),
                2 => r.read_change_cipher_spec().err(),
                _ => match r.read_message() {
                    Ok(Message::AlertMessage(_)) | Ok(_) => None,
                    Err(e) => Some(e),
                },
            };
            if let Some(e) = e {
                errs += 1;
                if way == 0 && errs == 1 {
                    last = kind(&e);
                }
            }
        }
    }
    Ok(format!("layer: {}", last))
}

fn after_ccs(ty: u8, body: Vec<u8>, sealed: bool) -> Result<String, String> {
    let mut stage = 0;
    let run = world(default_cfg(), move |s| {
        stage += 1;
        match stage {
            1 => Feed::Bytes(recs(HS, &s.cfg.flight(), 1 << 14)),
            2 if s.keys.is_some() => {
                let mut o = rec(CCS, &[1]);
                o.extend(if sealed { s.seal(ty, &body) } else { rec(ty, &body) });
                Feed::Bytes(o)
            }
            _ => Feed::Eof,
        }
    });
    match run.connect() {
        Ok(_) => Err("established without the right Finished".into()),
        Err(e) => Ok(format!("after CCS: {}", kind(&e))),
    }
}

fn strings(alpha: &[u8], n: usize) -> impl Iterator<Item = Vec<u8>> + '_ {
    let k = alpha.len();
    (0..k.pow(n as u32)).map(move |mut i| {
        (0..n)
            .map(|_| {
                let b = alpha[i % k];
                i /= k;
                b
            })
            .collect()
    })
}

fn main() {
    let c = Ctx::new("C13", "model_checking");
    let th = c.thorough();
    c.rule(
        "The peer's bytes are enumerated: all short strings, all single-byte substitutions, truncations and length-field rewrites of a conforming flight, in every \
         protocol state, from outside and from a peer that holds the keys. Each execution must return from every call: panics (assertions, overflow checks, bounds) are \
         caught, a reader polling an ended stream and any call longer than the time limit count as hangs. The same run is repeated without assertions and overflow checks.",
    );
    c.bound("and floods of the same thing over and over, on an unoptimised build (c13f.rs)");
    // ---- any bytes as the first thing the peer says
    c.bound("first bytes: all strings of length 0..=2, all strings of length 3..=5 over 12 bytes and 6..=7 over 6 bytes; the stream then ends or breaks");
    c.par(257, |h| {
        if h == 256 {
            c.case("first/", || raw(vec![], eof));
            for b in 0..=255u8 {
                c.case(&format!("first/{:02x}", b), || raw(vec![b], eof));
            }
            return;
        }
        for l in 0..=255u8 {
            c.case(&format!("first/{:02x}{:02x}", h, l), || raw(vec![h as u8, l], if l % 2 == 0 { eof } else { broken }));
        }
    });
    let a12 = [0u8, 1, 2, 3, 4, 11, 20, 21, 22, 23, 128, 255];
    let a6 = [0u8, 1, 3, 21, 22, 255];
    c.par(12, |f| {
        for n in 3..=5 {
            for s in strings(&a12, n).filter(|s| s[0] == a12[f]) {
                c.case(&format!("first/{:02x?}", s), || raw(s.clone(), eof));
            }
        }
    });
    c.par(36, |f| {
        for n in 6..=7 {
            for s in strings(&a6, n).filter(|s| s[0] == a6[f / 6] && s[1] == a6[f % 6]) {
                c.case(&format!("first/{:02x?}", s), || raw(s.clone(), eof));
            }
        }
    });
    // ---- every record header
    c.bound("first record: all 256 types x 40 lengths, all version bytes; bodies zero, 0xff or a handshake header; complete, one short, one long");
    let lens: Vec<usize> = (0..=20).chain([64, 255, 256, 16383, 16384, 16385, 16399, 16400, 16401, 18431, 18432, 18433, 32767, 32768, 65534, 65535]).collect();
    c.par(256, |t| {
        for &l in &lens {
            for (k, fill) in [0u8, 0xff, 22].iter().enumerate() {
                c.case(&format!("header/{}/{}/{}", t, l, k), || {
                    let mut b = vec![*fill; l];
                    if k == 2 && l >= 4 {
                        b[0] = 2;
                        b[1] = 0;
                        b[2] = 0;
                        b[3] = (l - 4).min(255) as u8;
                    }
                    let mut r = rec(t as u8, &b);
                    if (t + l) % 3 == 1 {
                        r.pop();
                    } else if (t + l) % 3 == 2 {
                        r.push(22);
                    }
                    raw(r, eof)
                });
            }
        }
        for v in 0..=255u8 {
            c.case(&format!("version/{}/{}", t, v), || raw(rec_v(22, (t as u8, v), &hs(0, &[])), eof));
        }
    });
    // ---- mutated flights
    let mut rich = default_cfg();
    rich.ext = Some(ext_block(&[(11, vec![1, 0]), (10, vec![0, 2, 0, 23]), (13, vec![0, 2, 4, 1]), (0xff01, vec![0])]));
    rich.certs = vec![pattern(1, 20), pattern(2, 5)];
    rich.session_id = vec![1; 4];
    let flights: Vec<(&str, Vec<u8>)> = vec![
        ("records", [rich.server_hello(), rich.certificate(), rich.ske(), rich.shd()].iter().flat_map(|m| rec(HS, m)).collect()),
        ("single", rec(HS, &rich.flight())),
    ];
    let subst: Vec<u8> = if th { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 16, 20, 22, 23, 32, 33, 65, 127, 128, 254, 255] };
    c.bound(format!("server flight in two packings: every byte set to {} values, every truncation, every deletion and duplication; then the stream ends or breaks", subst.len()));
    for (n, f) in &flights {
        c.par(f.len(), |i| {
            for &v in &subst {
                if f[i] == v {
                    continue;
                }
                c.case(&format!("subst/{}/{}/{:02x}", n, i, v), || {
                    let mut w = f.clone();
                    w[i] = v;
                    raw(w, if v % 2 == 0 { eof } else { broken })
                });
            }
            for (k, end) in [eof as fn() -> Feed, broken].iter().enumerate() {
                c.case(&format!("trunc/{}/{}/{}", n, i, k), || raw(f[..i].to_vec(), *end));
            }
            c.case(&format!("delete/{}/{}", n, i), || {
                let mut w = f.clone();
                w.remove(i);
                raw(w, eof)
            });
            c.case(&format!("double/{}/{}", n, i), || {
                let mut w = f.clone();
                w.insert(i, f[i]);
                raw(w, eof)
            });
        });
    }
    let all = shapes();
    c.bound(format!("{} further shapes of servers: bytes of the flight (of long certificates: near their ends) set to 6 values, removed, and the flight cut there", all.len()));
    c.par(all.len() * 4, |ij| {
        let ((n, g), part) = (&all[ij / 4], ij % 4);
        let f = rec_flight(g);
        let mut near = vec![0usize];
        let mut at = 0;
        for m in [g.server_hello(), g.certificate(), g.ske(), g.shd()] {
            at += recs(HS, &m, 1 << 14).len();
            near.push(at);
        }
        for i in (part..f.len()).step_by(4) {
            if f.len() > 900 && !near.iter().any(|&x| i.abs_diff(x) < 50) {
                continue;
            }
            for v in [0u8, 1, 127, 128, 255, f[i] ^ 1] {
                if f[i] != v {
                    c.case(&format!("shape/{}/{}/{:02x}", n, i, v), || {
                        let mut w = f.clone();
                        w[i] = v;
                        raw(w, eof)
                    });
                }
            }
            c.case(&format!("shape/{}/{}/cut", n, i), || raw(f[..i].to_vec(), broken));
            c.case(&format!("shape/{}/{}/del", n, i), || {
                let mut w = f.clone();
                w.remove(i);
                raw(w, eof)
            });
        }
    });
    // all pairs of length-carrying bytes
    let msgs = [rich.server_hello(), rich.certificate(), rich.ske(), rich.shd()];
    let mut len_at = Vec::new();
    {
        let f: Vec<u8> = rich.flight();
        let mut at = 0;
        for m in &msgs {
            len_at.extend([at + 1, at + 2, at + 3]);
            if m[0] == 2 {
                let p = at + 4 + 34;
                len_at.push(p);
                let x = p + 1 + rich.session_id.len() + 3;
                len_at.extend([x, x + 1, x + 4, x + 5, x + 6]);
            }
            if m[0] == 11 {
                len_at.extend([at + 4, at + 5, at + 6, at + 7, at + 8, at + 9, at + 30, at + 31, at + 32]);
            }
            if m[0] == 12 {
                len_at.extend([at + 4, at + 7, at + 8, m.len() - 14 + at, m.len() - 13 + at]);
            }
            at += m.len();
        }
        len_at.retain(|&i| i < f.len());
    }
    let vals: &[u8] = if th { &[0, 1, 2, 4, 32, 64, 127, 128, 255] } else { &[0, 1, 128, 255] };
    c.bound(format!("all pairs of the {} length-carrying bytes of the flight x {} values each", len_at.len(), vals.len()));
    let f0 = rich.flight();
    c.par(len_at.len(), |a| {
        for b in a + 1..len_at.len() {
            for &x in vals {
                for &y in vals {
                    c.case(&format!("lens/{}={}/{}={}", len_at[a], x, len_at[b], y), || {
                        let mut w = f0.clone();
                        w[len_at[a]] = x;
                        w[len_at[b]] = y;
                        if w == f0 {
                            return Ok("unchanged".into());
                        }
                        raw(recs(HS, &w, 1 << 14), eof)
                    });
                }
            }
        }
    });
    // ---- server key exchange bodies
    c.bound("ServerKeyExchange bodies: all strings of length 0..=2, all of length 3..=5 over 9 bytes, all 256 point lengths x 3 contents, all points of length 65 over corner coordinates");
    let kex = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
    let ske = |b: &[u8]| -> Result<String, String> {
        match kex.new_kex().compute_keys(b, &mut rand::rngs::OsRng) {
            Ok(_) => Ok("ske: accepted".into()),
            Err(e) => Ok(format!("ske: {}", kind(&e))),
        }
    };
    c.par(256, |h| {
        c.case(&format!("ske/{:02x}", h), || ske(&[h as u8]));
        for l in 0..256 {
            c.case(&format!("ske/{:02x}{:02x}", h, l), || ske(&[h as u8, l as u8]));
        }
        for (k, fill) in [0u8, 4, 255].iter().enumerate() {
            c.case(&format!("ske/point/{}/{}", h, k), || {
                let mut b = vec![3, 0, 23, h as u8];
                b.extend(vec![*fill; h]);
                if h > 0 {
                    b[4] = 4;
                }
                b.extend([4, 1, 0, 0]);
                ske(&b)
            });
        }
    });
    c.bound("every first byte x every length of the point (ending like the generator, and all zero), every algorithm pair x signature lengths 0..=20 declared and present");
    c.par(256, |f| {
        for n in 1..256usize {
            for k in 0..2 {
                c.case(&format!("ske/form/{}/{}/{}", f, n, k), || {
                    let mut b = vec![3, 0, 23, n as u8];
                    b.extend(if k == 0 { vec![0; n] } else { default_cfg().public.iter().cloned().cycle().take(n).collect() });
                    b[4] = f as u8;
                    b.extend([4, 1, 0, 1, 9]);
                    ske(&b)
                });
            }
        }
        for g in 0..256 {
            for n in [0usize, 1, 2, 20] {
                c.case(&format!("ske/algorithm/{}/{}/{}", f, g, n), || {
                    let mut b = vec![3, 0, 23, 65];
                    b.extend(default_cfg().public);
                    b.extend([f as u8, g as u8, 0, n as u8]);
                    b.extend(vec![7; n]);
                    ske(&b)
                });
            }
        }
    });
    let a9 = [0u8, 1, 3, 4, 23, 24, 65, 128, 255];
    c.par(9, |f| {
        for n in 3..=5 {
            for s in strings(&a9, n).filter(|s| s[0] == a9[f]) {
                c.case(&format!("ske/{:02x?}", s), || ske(&s));
            }
        }
    });
    let corner: Vec<[u8; 32]> = {
        let mut v = vec![[0u8; 32], [0xff; 32]];
        let p = mc::refcrypto::be32(&curve().p);
        for d in [0i32, 1, -1] {
            let x = if d >= 0 { &curve().p + d as u32 } else { &curve().p - 1u32 };
            v.push(mc::refcrypto::be32(&x));
        }
        v.push(p);
        v.push(mc::refcrypto::be32(&curve().n));
        for i in 0..32 {
            let mut x = [0u8; 32];
            x[i] = 0x80;
            v.push(x);
        }
        v
    };
    c.par(corner.len(), |i| {
        for j in 0..corner.len() {
            for pre in [0u8, 2, 3, 4, 6] {
                c.case(&format!("ske/corner/{}/{}/{}", i, j, pre), || {
                    let mut b = vec![3, 0, 23, 65, pre];
                    b.extend(corner[i]);
                    b.extend(corner[j]);
                    b.extend([4, 1, 0, 0]);
                    ske(&b)
                });
            }
        }
    });
    // ---- a key-holding peer, record layer: read_application_data, read_handshake, read_message, read_change_cipher_spec
    c.bound("key-holding peer at the record layer (4 ways of reading): each type with all bodies of length 0..=2 and all of length 3..=5 over 7 bytes; all pairs of 28 records");
    c.par(256, |h| {
        for t in [CCS, ALERT, HS, APP] {
            if h == 0 {
                c.case(&format!("layer/{}/", t), || layer(&[(t, vec![])]));
            }
            c.case(&format!("layer/{}/{:02x}", t, h), || layer(&[(t, vec![h as u8])]));
            for l in 0..256 {
                c.case(&format!("layer/{}/{:02x}{:02x}", t, h, l), || layer(&[(t, vec![h as u8, l as u8])]));
            }
            // any handshake type with any small length
            for n in 0..6 {
                for fill in [0u8, 1, 255] {
                    c.case(&format!("layer/hs/{}/{}/{}/{}", t, h, n, fill), || layer(&[(t, hs(h as u8, &vec![fill; n])), (APP, vec![1])]));
                }
            }
        }
        c.case(&format!("layer/type/{}", h), || layer(&[(h as u8, vec![1, 0])]));
    });
    let a7 = [0u8, 1, 2, 11, 14, 20, 255];
    c.par(28, |f| {
        let t = [CCS, ALERT, HS, APP][f / 7];
        for n in 3..=5 {
            for s in strings(&a7, n).filter(|s| s[0] == a7[f % 7]) {
                c.case(&format!("layer/{}/{:02x?}", t, s), || layer(&[(t, s.clone())]));
            }
        }
    });
    let top = if th { 1100 } else { 300 };
    c.bound(format!("sealed records of the 4 types with bodies of every length 0..={} (zeros, ones)", top));
    c.par(top + 1, |n| {
        for t in [CCS, ALERT, HS, APP] {
            for v in [0u8, 1] {
                c.case(&format!("layer/length/{}/{}/{}", t, n, v), || layer(&[(t, vec![v; n]), (APP, vec![1])]));
            }
        }
    });
    let menu: Vec<(u8, Vec<u8>)> = vec![
        (APP, vec![]), (APP, vec![1]), (APP, vec![0; 1 << 14]), (APP, vec![0; (1 << 14) + 1]), (APP, vec![0; (1 << 14) + 2032]), (APP, vec![0; (1 << 14) + 2033]),
        (ALERT, vec![]), (ALERT, vec![1]), (ALERT, vec![1, 0]), (ALERT, vec![2, 40]), (ALERT, vec![9, 9]), (ALERT, vec![1, 0, 0]), (ALERT, vec![0; 1 << 14]),
        (CCS, vec![]), (CCS, vec![1]), (CCS, vec![2]), (CCS, vec![1; 300]),
        (HS, vec![]), (HS, vec![0]), (HS, vec![0, 0, 0]), (HS, hs(0, &[])), (HS, hs(20, &[0; 12])), (HS, hs(14, &[])), (HS, vec![2, 0xff, 0xff, 0xff]), (HS, vec![0; 1 << 14]),
        (HS, vec![0xff; 1 << 14]), (HS, rich.server_hello()), (HS, vec![11, 0, 0x40, 0, 0, 0, 0]),
    ];
    c.par(menu.len(), |i| {
        for j in 0..menu.len() {
            c.case(&format!("layer/pair/{}/{}", i, j), || layer(&[menu[i].clone(), menu[j].clone()]));
            if th {
                for k in 0..menu.len() {
                    c.case(&format!("layer/triple/{}/{}/{}", i, j, k), || layer(&[menu[i].clone(), menu[j].clone(), menu[k].clone()]));
                }
            }
        }
    });
    // ---- the same inside the client
    c.bound("client after ChangeCipherSpec and established client: all records and pairs of the menu, all 256 one-byte alerts, all alert descriptions, all 256 types, sealed or not; then reads to the end, a write and close()");
    c.par(menu.len(), |i| {
        for sealed in [false, true] {
            let (t, b) = &menu[i];
            if sealed || b.len() <= 65535 {
                c.case(&format!("ccs/{}/{}", i, sealed), || after_ccs(*t, b.clone(), sealed));
                c.case(&format!("post/{}/{}", i, sealed), || post(sealed, *t, b, &[100]));
                c.case(&format!("post/{}/{}/odd", i, sealed), || post(sealed, *t, b, &[0, 1, 0, 7]));
            }
        }
        for j in 0..menu.len() {
            c.case(&format!("post/pair/{}/{}", i, j), || {
                let e = establish(default_cfg(), if j % 2 == 0 { eof } else { broken })?;
                e.send(menu[i].0, &menu[i].1);
                e.send(menu[j].0, &menu[j].1);
                e.send(APP, b"end");
                exercise(e, &[30_000])
            });
        }
    });
    c.par(256, |h| {
        let h = h as u8;
        c.case(&format!("post/alert1/{}", h), || post(true, ALERT, &[h], &[9]));
        c.case(&format!("post/alert/1/{}", h), || post(true, ALERT, &[1, h], &[9]));
        c.case(&format!("post/alert/2/{}", h), || post(true, ALERT, &[2, h], &[9]));
        c.case(&format!("post/level/{}", h), || post(true, ALERT, &[h, 0], &[9]));
        c.case(&format!("post/type/{}", h), || post(true, h, &[1, 0], &[9]));
        c.case(&format!("post/rawtype/{}", h), || post(false, h, &[1; 40], &[9]));
        c.case(&format!("post/hs/{}", h), || post(true, HS, &hs(h, &[]), &[9]));
        c.case(&format!("post/hs4/{}", h), || post(true, HS, &hs(h, &[0, 0, 0, 0]), &[9]));
        c.case(&format!("ccs/hs/{}", h), || after_ccs(HS, hs(h, &[0; 12]), true));
        c.case(&format!("ccs/alert/{}", h), || after_ccs(ALERT, vec![2, h], true));
        c.case(&format!("ccs/type/{}", h), || after_ccs(h, vec![1], true));
    });
    c.bound("unprotected records of every length up to 80 (zeros, ones) where protected ones are due, in the handshake and afterwards");
    c.par(81, |n| {
        for t in [CCS, ALERT, HS, APP] {
            for v in [0u8, 0xff] {
                c.case(&format!("ccs/rawlen/{}/{}/{}", t, n, v), || after_ccs(t, vec![v; n], false));
                c.case(&format!("post/rawlen/{}/{}/{}", t, n, v), || post(false, t, &vec![v; n], &[9]));
            }
        }
    });
    // handshake alerts in the clear
    c.par(256, |h| {
        for l in 0..4u8 {
            c.case(&format!("clear/alert/{}/{}", l, h), || raw(rec(ALERT, &[l, h as u8]), eof));
        }
        for n in 0..3usize {
            c.case(&format!("clear/hs/{}/{}", h, n), || raw(rec(HS, &hs(h as u8, &vec![0; n * 7])), eof));
        }
    });
    // truncated protected stream
    c.par(2, |k| {
        c.case(&format!("post/trunc/{}", k), || {
            for cut in 0..40 {
                let e = establish(default_cfg(), if k == 0 { eof } else { broken })?;
                let r = e.seal(APP, b"0123456789abcdefg");
                e.push(r[..cut.min(r.len())].to_vec());
                exercise(e, &[5])?;
            }
            Ok("truncated records end the stream".into())
        });
    });
    c.finish()
}
