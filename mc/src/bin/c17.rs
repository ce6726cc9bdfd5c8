//! C17: record size limits, both directions, both protection states.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::tls::{ContentType, Message, TlsReader, TlsWriter};
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::Write;

const MAX: usize = 1 << 14;
const TAG: usize = 16;
const ENC_MAX: usize = MAX + 2048;

fn reader_kind(input: &[u8], keyed: Option<(&[u8; 32], &[u8; 12])>) -> Result<Vec<u8>, String> {
    let mut r = TlsReader::new(std::io::Cursor::new(input.to_vec()));
    if let Some((k, iv)) = keyed {
        r.set_decryptor(ChaCha20Poly1305.new_decryptor(k.to_vec()));
        r.set_iv(iv.to_vec());
    }
    match r.read_message() {
        Ok(Message::ApplicationDataMessage(d)) => Ok(d),
        Ok(_) => Err("other message".into()),
        Err(e) => Err(format!("{:?}", e.kind)),
    }
}

/// The record layer alone, every length.
fn layer(c: &Ctx, key: &[u8; 32], iv: &[u8; 12], len: usize) {
    c.case(&format!("layer/plain/{}", len), || {
        let body = pattern(1, len);
        match (len <= MAX, reader_kind(&rec(APP, &body), None)) {
            (true, Ok(d)) if d == body => Ok("plaintext record accepted".into()),
            (false, Err(k)) if k == "RecordOverflow" => Ok("plaintext record: RecordOverflow".into()),
            (_, r) => Err(format!("plaintext record of {} bytes: {:?}", len, r.map(|d| d.len()))),
        }
    });
    if len >= TAG {
        c.case(&format!("layer/sealed/{}", len), || {
            let body = pattern(2, len - TAG);
            let r = seal(key, iv, 0, APP, &body);
            match (len - TAG <= MAX, reader_kind(&r, Some((key, iv)))) {
                (true, Ok(d)) if d == body => Ok("protected record accepted".into()),
                (false, Err(k)) if k == "RecordOverflow" => Ok("protected record: RecordOverflow".into()),
                (_, r) => Err(format!("authentic protected record of {} bytes: {:?}", len, r.map(|d| d.len()))),
            }
        });
    }
    c.case(&format!("layer/junk/{}", len), || {
        let body = pattern(3, len);
        match reader_kind(&rec(APP, &body), Some((key, iv))) {
            Err(k) if k == "BadRecordMac" && len <= ENC_MAX => Ok("junk: BadRecordMac".into()),
            Err(k) if k == "RecordOverflow" && len > MAX + TAG => Ok("junk: RecordOverflow".into()),
            r => Err(format!("unauthentic protected record of {} bytes: {:?}", len, r.map(|d| d.len()))),
        }
    });
}

/// Handshake with one handshake record of exactly `len` plaintext bytes in front.
fn in_handshake(len: usize, cfg: &Cfg) -> Result<String, String> {
    let mut stage = 0;
    let run = world(cfg.clone(), move |s| {
        stage += 1;
        match stage {
            1 => {
                let f = s.cfg.flight();
                let k = len.min(f.len());
                let mut o = rec(HS, &f[..k]);
                if k < len {
                    let mut b = f[..k].to_vec();
                    b.resize(len, 0);
                    o = rec(HS, &b);
                }
                o.extend(recs(HS, &f[k..], MAX));
                Feed::Bytes(o)
            }
            2 => match s.finished() {
                Some(m) => {
                    let mut o = rec(CCS, &[1]);
                    o.extend(s.seal(HS, &m));
                    Feed::Bytes(o)
                }
                None => Feed::Eof,
            },
            _ => Feed::Eof,
        }
    });
    let r = run.connect();
    run.sync();
    let al = run.server.borrow().alerts();
    match r {
        Ok(_) if len <= MAX => Ok("handshake record accepted".into()),
        Ok(_) => Err(format!("a handshake record of {} bytes is accepted", len)),
        Err(e) if len > MAX && kind(&e) == "RecordOverflow" => match &al[..] {
            [(_, a, false)] if a == &[2, 22] => Ok("handshake record: RecordOverflow".into()),
            a => Err(format!("record_overflow is not what the peer is told: {:?}", a)),
        },
        Err(e) => Err(format!("a handshake record of {} bytes: {:?} {}", len, e.kind, e.desc)),
    }
}

/// The first protected record, an application record of `len` wire bytes, authentic or not.
fn before_finished(len: usize, authentic: bool) -> Result<String, String> {
    let mut stage = 0;
    let run = world(default_cfg(), move |s| {
        stage += 1;
        match stage {
            1 => Feed::Bytes(recs(HS, &s.cfg.flight(), MAX)),
            2 => {
                let mut o = rec(CCS, &[1]);
                if authentic {
                    o.extend(s.seal(APP, &pattern(1, len - TAG)));
                } else {
                    o.extend(rec(APP, &pattern(1, len)));
                }
                Feed::Bytes(o)
            }
            _ => Feed::Eof,
        }
    });
    let k = match run.connect() {
        Ok(_) => return Err("established without Finished".into()),
        Err(e) => kind(&e),
    };
    run.sync();
    let al = run.server.borrow().alerts();
    let d = match al.last() {
        Some((_, a, true)) if a.len() == 2 => a[1],
        x => return Err(format!("no protected alert: {:?} ({})", x, k)),
    };
    let allowed: &[(&str, u8)] = if len > ENC_MAX || (authentic && len > MAX + TAG) {
        &[("RecordOverflow", 22)]
    } else if authentic {
        &[("UnexpectedMessage", 10)]
    } else if len > MAX + TAG {
        &[("RecordOverflow", 22), ("BadRecordMac", 20)]
    } else {
        &[("BadRecordMac", 20)]
    };
    if allowed.iter().any(|x| x.0 == k && x.1 == d) {
        Ok(format!("before Finished: {}", k))
    } else {
        Err(format!("protected record of {} bytes ({}): {} / alert {}", len, if authentic { "authentic" } else { "junk" }, k, d))
    }
}

fn main() {
    let c = Ctx::new("C17", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every value of the 16-bit record length, in each protection state, with authentic and with unauthentic content from a key-holding peer, against the \
         two numeric limits; and every record the client emits for a range of write sizes, opened by the reference peer.",
    );
    let key = [7u8; 32];
    let iv = [9u8; 12];
    // ---- the record layer, all 65536 lengths
    c.bound("record layer reader: all 65536 lengths unprotected, all sealed lengths, all 65536 unauthentic protected lengths");
    c.par(256, |h| {
        for l in 0..256 {
            layer(&c, &key, &iv, h * 256 + l);
        }
    });
    // ---- the whole client
    let mut big = default_cfg();
    big.certs = vec![pattern(4, 20_000)];
    let lens: Vec<usize> = if th {
        (1..=65535).collect()
    } else {
        (1..=200).chain((200..16300).step_by(97)).chain(16300..=16900).chain((16900..65000).step_by(61)).chain(18400..=18500).chain(65400..=65535).collect()
    };
    c.bound(format!("client constructor: first handshake record of {} lengths (all in the thorough tier)", lens.len()));
    let lens = &lens;
    c.par(lens.len(), |i| {
        c.case(&format!("handshake/{}", lens[i]), || in_handshake(lens[i], &big));
    });
    let mut win: Vec<usize> = (0..=80).chain(16300..=16500).chain(18400..=18460).chain([4096, 8192, 12000, 17000, 20000, 32767, 32768, 49152, 65535]).collect();
    if th {
        win.extend((81..16300).step_by(13));
        win.extend(16500..18400);
        win.extend((18460..65535).step_by(29));
    }
    c.bound(format!("client after ChangeCipherSpec: {} lengths x authentic or not, kind and alert", win.len()));
    let win = &win;
    c.par(win.len(), |i| {
        let l = win[i];
        c.case(&format!("before-finished/{}/junk", l), || before_finished(l, false));
        if l >= TAG && l - TAG <= 65535 - TAG {
            c.case(&format!("before-finished/{}/authentic", l), || before_finished(l, true));
        }
    });
    // ---- established: every legal length is delivered exactly
    let step = if th { 1 } else { 7 };
    c.bound(format!("established connection: application records of every plaintext length 0..=16384 (step {}), delivered exactly, and each too long one delivered not at all", step));
    c.par(128, |h| {
        c.case(&format!("deliver/{}", h), || {
            let mut e = establish(default_cfg(), eof)?;
            let mut all = Vec::new();
            let mut l = h * 128;
            while l <= (h + 1) * 128 {
                if l % step == 0 || l >= MAX - 130 || l < 40 {
                    let p = pattern(l as u8, l);
                    e.send(APP, &p);
                    all.extend(p);
                }
                l += 1;
            }
            let (got, _) = drain(&mut e.c, 5000);
            if got != all {
                return Err(format!("records of {}.. bytes: {} of {} bytes delivered", h * 128, got.len(), all.len()));
            }
            Ok("all legal records delivered".into())
        });
    });
    let over: Vec<usize> = (MAX + 1..MAX + 40).chain((MAX + 40..ENC_MAX - TAG).step_by(37)).chain(ENC_MAX - TAG - 3..ENC_MAX - TAG + 4).chain([20000, 40000, 65535 - TAG]).collect();
    let over = &over;
    c.par(over.len(), |i| {
        for ty in [APP, HS, ALERT, CCS] {
            c.case(&format!("over/{}/{}", over[i], ty), || {
                let mut e = establish(default_cfg(), eof)?;
                e.send(APP, b"before");
                e.send(ty, &pattern(5, over[i]));
                let (got, _) = drain(&mut e.c, 70_000);
                if got != b"before" {
                    return Err(format!("a record of {} plaintext bytes: {} bytes delivered", over[i], got.len()));
                }
                Ok("too long record not delivered".into())
            });
        }
    });
    c.par(TAG, |l| {
        for ty in [APP, HS, ALERT, CCS] {
            c.case(&format!("short/{}/{}", l, ty), || {
                let mut e = establish(default_cfg(), eof)?;
                e.send(APP, b"before");
                e.push(rec(ty, &pattern(5, l)));
                let (got, _) = drain(&mut e.c, 7000);
                if got != b"before" {
                    return Err(format!("a protected record of {} bytes: {} bytes delivered", l, got.len()));
                }
                Ok("too short record not delivered".into())
            });
        }
    });
    // ---- emission
    let mut sizes: Vec<usize> = (0..=130).collect();
    for k in [1usize, 2, 3, 4, 8] {
        sizes.extend(k * MAX - 20..=k * MAX + 20);
    }
    sizes.extend([1000, 5000, 10_000, 17_000, 18_431, 18_432, 18_433, 65_535, 65_536, 65_537, 100_000, 1 << 20]);
    if th {
        sizes.extend((131..70_000).step_by(11));
    }
    c.bound(format!("client writes of {} sizes up to 1 MiB; record layer writer: all sizes 0..=40000 in each content type", sizes.len()));
    let sizes = &sizes;
    c.par((sizes.len() + 7) / 8, |h| {
        let part = &sizes[h * 8..(h * 8 + 8).min(sizes.len())];
        c.case(&format!("write/{:?}", part), || {
            let mut e = establish(default_cfg(), eof)?;
            let mut all = Vec::new();
            for &n in part {
                let p = pattern(n as u8, n);
                e.c.write_all(&p).map_err(|x| format!("write of {} bytes fails: {}", n, x))?;
                all.extend(p);
            }
            e.run.sync();
            e.run.problems()?;
            let s = e.run.server.borrow();
            if s.app_data() != all {
                return Err("written bytes and emitted bytes differ".into());
            }
            if s.records.iter().any(|r| r.2.len() > MAX) {
                return Err("a record with more than 2^14 bytes of plaintext is emitted".into());
            }
            Ok("emitted records within the limit".into())
        });
    });
    c.par(256, |h| {
        c.case(&format!("writer/{}", h), || {
            let mut n = h;
            while n <= 40_000 {
                for ty in [ContentType::ApplicationDataTy, ContentType::HandshakeTy, ContentType::AlertTy] {
                    let mut w = TlsWriter::new(Vec::new());
                    let p = pattern(n as u8, n);
                    w.write_data(ty, &p).map_err(|e| format!("{:?}", e))?;
                    let (rs, tail) = split_records(w.get_mut());
                    if !tail.is_empty() || rs.iter().any(|r| r.len() > 5 + MAX) || rs.iter().flat_map(|r| r[5..].to_vec()).collect::<Vec<u8>>() != p {
                        return Err(format!("{} bytes are not emitted as records within the limit", n));
                    }
                }
                n += 256;
            }
            Ok("writer within the limit".into())
        });
    });
    c.finish()
}
