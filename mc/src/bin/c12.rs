//! C12: the end of the stream is final, and nobody is waited for after it.
use mc::drive::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Item {
    App(usize),
    /// warning or fatal close_notify
    Close(u8),
    Fatal(u8),
    Warn(u8),
    AlertUnknown,
    AlertShort,
    AlertEmpty,
    Ccs,
    HelloRequest,
    Hs(u8),
    HsPart,
    HsEmpty,
    /// HelloRequests and another message in one record
    HrHs(u8, u8),
    BadTag,
    BadSeq,
    PlainApp,
    PlainClose,
    UnknownType,
    TooShort,
    TooLong,
    WireTooLong,
}
use Item::*;

#[derive(PartialEq, Clone, Copy)]
enum Class {
    Data,
    /// the stream must end here
    Hard,
    /// the client may go on or end here (RFC 5246 leaves it to the receiver)
    Soft,
}

fn class(i: Item) -> Class {
    match i {
        App(_) => Class::Data,
        Warn(_) | HelloRequest | HsPart => Class::Soft,
        _ => Class::Hard,
    }
}

fn items(th: bool) -> Vec<Item> {
    let mut v = vec![
        App(5), App(0), Close(1), Close(2), Fatal(40), Fatal(20), Warn(90), Warn(100), AlertUnknown, AlertShort, AlertEmpty, Ccs, HelloRequest, Hs(2), Hs(20), Hs(4), Hs(255),
        HsPart, HsEmpty, HrHs(1, 20), HrHs(2, 14), BadTag, BadSeq, PlainApp, PlainClose, UnknownType, TooShort, TooLong, WireTooLong,
    ];
    if th {
        v.extend([App(1), App(16384), Fatal(80), Warn(41), Hs(14), Hs(11), Hs(12), Hs(13), Hs(16), Hs(1)]);
    }
    v
}

fn wire(e: &Est, it: Item, tag: u8) -> (Vec<u8>, Vec<u8>) {
    let s = |t: u8, b: &[u8]| e.seal(t, b);
    let mut data = vec![];
    let w = match it {
        App(n) => {
            data = pattern(tag, n);
            s(APP, &data)
        }
        Close(l) => s(ALERT, &[l, 0]),
        Fatal(d) => s(ALERT, &[2, d]),
        Warn(d) => s(ALERT, &[1, d]),
        AlertUnknown => s(ALERT, &[7, 201]),
        AlertShort => s(ALERT, &[1]),
        AlertEmpty => s(ALERT, &[]),
        Ccs => s(CCS, &[1]),
        HelloRequest => s(HS, &hs(0, &[])),
        Hs(t) => {
            let m = {
                let sv = e.run.server.borrow();
                match t {
                    20 => sv.finished().unwrap_or(hs(20, &[0; 12])),
                    t => mc::seq::body_of(&sv, t),
                }
            };
            s(HS, &m)
        }
        HsPart => s(HS, &[0, 0]),
        HrHs(n, t) => {
            let mut m: Vec<u8> = (0..n).flat_map(|_| hs(0, &[])).collect();
            let sv = e.run.server.borrow();
            m.extend(if t == 20 { sv.finished().unwrap_or(hs(20, &[0; 12])) } else { mc::seq::body_of(&sv, t) });
            drop(sv);
            s(HS, &m)
        }
        HsEmpty => s(HS, &[]),
        BadTag => {
            let mut r = s(APP, b"evil");
            let n = r.len();
            r[n - 1] ^= 1;
            r
        }
        BadSeq => {
            let sv = e.run.server.borrow();
            let k = sv.keys.as_ref().unwrap();
            seal(&k.sw, &k.siv, sv.seq + 5, APP, b"evil")
        }
        PlainApp => rec(APP, b"evil, and long enough to hold a tag"),
        PlainClose => rec(ALERT, &[1, 0]),
        UnknownType => s(99, b"evil"),
        TooShort => rec(APP, &[1, 2, 3]),
        TooLong => s(APP, &pattern(3, (1 << 14) + 1)),
        WireTooLong => rec(APP, &pattern(3, (1 << 14) + 2049)),
    };
    (w, data)
}

/// read sizes used in turn
fn run(seq: &[Item], sizes: &[usize], together: bool) -> Result<String, String> {
    let mut e = establish(default_cfg(), stall)?;
    // cumulative data lengths at which the client may stop: before each soft item; and must stop: at the first hard one
    let mut all: Vec<u8> = Vec::new();
    let mut may = Vec::new();
    let mut must = None;
    let mut bytes = Vec::new();
    // stream offset at which the record that ends the stream has arrived in full
    let mut at = e.run.world.borrow().delivered + e.run.world.borrow().inbox.len() as u64;
    let mut met_at = u64::MAX;
    let mut close = false;
    let mut part = false;
    for (i, &it) in seq.iter().enumerate() {
        let (w, d) = wire(&e, it, i as u8);
        at += w.len() as u64;
        if together {
            bytes.extend(w);
        } else {
            e.push(w);
        }
        // a partial handshake message swallows the handshake bytes that follow
        let cl = match it {
            Hs(_) | HrHs(..) | HelloRequest if part => Class::Soft,
            it => class(it),
        };
        part |= it == HsPart;
        if must.is_none() {
            match cl {
                Class::Data => all.extend(d),
                Class::Soft => may.push(all.len()),
                Class::Hard => {
                    must = Some(all.len());
                    met_at = at;
                    close = matches!(it, Close(_));
                }
            }
        }
    }
    if together {
        e.push(bytes);
    }
    let must = must.ok_or("HARNESS sequence without an end")?;
    let mut got = Vec::new();
    let mut k = 0;
    // a read has reported the end (or, `met`, has taken the ending record and reported what came before it)
    let mut ended = false;
    let mut met = false;
    // with every further read the stream must stay ended; the queue and the stalling peer stay untouched
    let mut after = 0;
    let mut mark = (0, 0, 0);
    loop {
        let n = sizes[k % sizes.len()];
        k += 1;
        let mut buf = vec![0xeeu8; n];
        let r = e.c.read(&mut buf);
        let w = e.run.world.borrow();
        if w.stalled > 0 {
            return Err(format!("the client waits for a silent peer although the stream has ended ({} bytes delivered so far)", got.len()));
        }
        let now = (w.delivered, w.inbox.len(), w.read_calls);
        drop(w);
        match r {
            Ok(m) if m > n => return Err("read returns more than the buffer holds".into()),
            Ok(0) if n > 0 => {}
            Ok(m) => {
                if ended && m > 0 {
                    return Err(format!("{} bytes delivered after the end of the stream", m));
                }
                got.extend_from_slice(&buf[..m]);
                if got.len() > must || got[..] != all[..got.len()] {
                    return Err(format!("bytes that follow the end of the stream (or never were in it) are delivered: {} of {}", got.len(), must));
                }
                if met && now != mark {
                    return Err("a read after the one that met the end of the stream touches the transport".into());
                }
                // a short read need not have gone as far as the end
                if !ended && !met && m < n && now.0 >= met_at {
                    met = true;
                    mark = now;
                }
                if m > 0 || !ended {
                    continue;
                }
            }
            Err(x) => {
                if ended {
                    return Err(format!("a read after the end fails instead of returning 0: {}", x));
                }
                if close {
                    return Err(format!("close_notify is reported as a read error: {}", x));
                }
            }
        }
        if !ended {
            ended = true;
            if !met {
                mark = now;
            }
        }
        if now != mark {
            return Err("a read after the end of the stream touches the transport".into());
        }
        after += 1;
        if after == 4 {
            break;
        }
    }
    if got.len() != must && !may.contains(&got.len()) {
        return Err(format!("{} bytes were delivered in order before the end, the reads returned {}", must, got.len()));
    }
    // nothing but the established client's own records went out
    e.run.sync();
    e.run.problems()?;
    Ok(if got.len() == must { "everything up to the end".into() } else { "ended at a warning or handshake message".to_string() })
}

fn close_case(seq: &[u8]) -> Result<String, String> {
    // w = write, r = read one waiting record, c = close
    let mut e = establish(default_cfg(), stall)?;
    e.run.sync();
    let n0 = e.run.server.borrow().records.len();
    let mut closes = 0;
    for (i, &op) in seq.iter().enumerate() {
        match op {
            b'w' => e.c.write_all(&pattern(i as u8, 10 * i + 1)).map_err(|x| format!("write: {}", x))?,
            b'r' => {
                e.send(APP, b"abc");
                let mut b = [0; 3];
                let n = e.c.read(&mut b).map_err(|x| format!("read: {}", x))?;
                if n != 3 {
                    return Err("read falls short".into());
                }
            }
            b'z' => {
                let _ = e.c.read(&mut []);
            }
            // read a part of a record: the rest stays buffered
            b'p' => {
                e.send(APP, b"abcde");
                let mut b = [0; 2];
                let n = e.c.read(&mut b).map_err(|x| format!("read: {}", x))?;
                if n != 2 {
                    return Err("read falls short".into());
                }
            }
            // the peer has closed, and the client has read up to there
            b'e' => {
                e.send(ALERT, &[1, 0]);
                let mut b = [0; 64];
                while e.c.read(&mut b).map_err(|x| format!("read: {}", x))? == 64 {}
            }
            // something has arrived that is never read
            b'u' => e.send(APP, b"unread"),
            b'f' => e.c.flush().map_err(|x| format!("flush: {}", x))?,
            _ => {
                e.c.close().map_err(|x| format!("close: {:?}", x.kind))?;
                closes += 1;
                break;
            }
        }
    }
    e.run.sync();
    e.run.problems()?;
    let s = e.run.server.borrow();
    let al: Vec<_> = s.alerts();
    if al.len() != closes || closes != 1 {
        return Err(format!("close() put {} alerts on the wire", al.len()));
    }
    let (i, a, prot) = &al[0];
    if a.len() != 2 || a[1] != 0 || !prot || (a[0] != 1 && a[0] != 2) {
        return Err(format!("close() sends alert {:?}, protected: {}", a, prot));
    }
    if *i != s.records.len() - 1 || *i < n0 {
        return Err("close_notify is not the last record".into());
    }
    let tail = s.tail_len(&e.run.world.borrow().out);
    if tail != 0 {
        return Err("incomplete record after close()".into());
    }
    Ok("one protected close_notify".into())
}

fn main() {
    let c = Ctx::new("C12", "model_checking");
    let th = c.thorough();
    let al = items(th);
    let depth = if th { 5 } else { 4 };
    c.rule(
        "All sequences of server items (data, alerts, handshake messages, malformed, forged and oversized records) up to a depth that end the stream, followed by more \
         authentic data and a peer that then stays silent for ever, against several read-size schedules; each read after the end is checked not to touch the transport. \
         Oracle: delivered = data before the first ending item; warnings, HelloRequest and partial handshake messages may be skipped or end the stream.",
    );
    c.bound(format!("{} items, up to {} items up to and including the one that ends the stream, then 2 more; 5 read schedules, one or many transport reads", al.len(), depth));
    let mut seqs: Vec<Vec<Item>> = vec![];
    let open: Vec<Item> = al.iter().cloned().filter(|&i| class(i) != Class::Hard).collect();
    let hard: Vec<Item> = al.iter().cloned().filter(|&i| class(i) == Class::Hard).collect();
    let mut pre: Vec<Vec<Item>> = vec![vec![]];
    let mut all_pre = pre.clone();
    for _ in 1..depth {
        let mut next = Vec::new();
        for p in &pre {
            for &o in &open {
                let mut q = p.clone();
                q.push(o);
                next.push(q);
            }
        }
        all_pre.extend(next.clone());
        pre = next;
    }
    for p in &all_pre {
        for &h in &hard {
            let mut s = p.clone();
            s.push(h);
            s.push(App(6));
            s.push(Close(1));
            seqs.push(s);
        }
    }
    // after the end: any item must be without effect
    for &h in &hard {
        for &x in &al {
            seqs.push(vec![App(5), h, x, App(6), Close(1)]);
            seqs.push(vec![h, x, App(6), Close(1)]);
        }
    }
    let schedules: [&[usize]; 5] = [&[64], &[1], &[5], &[0, 3], &[20000]];
    let seqs = &seqs;
    c.par(seqs.len(), |i| {
        for (j, sz) in schedules.iter().enumerate() {
            // all schedules for the short ones, in rotation for the long ones
            if seqs[i].len() > 4 && (i + j) % 5 > if th { 1 } else { 0 } {
                continue;
            }
            let together = (i + j) % 2 == 0;
            c.case(&format!("end/{:?}/{:?}/{}", seqs[i], sz, together), || run(&seqs[i], sz, together));
        }
    });
    // every alert, complete
    c.bound("all 2 x 256 alert level/description pairs as the ending or skipped item");
    c.par(512, |i| {
        let (l, d) = (1 + (i / 256) as u8, i as u8);
        c.case(&format!("alert/{}/{}", l, d), || {
            let it = if d == 0 { Close(l) } else if l == 2 { Fatal(d) } else { Warn(d) };
            run(&[App(5), it, App(6), Close(1), App(7)], &[8], false)
        });
    });
    // ---- close()
    let mut ops: Vec<Vec<u8>> = vec![vec![]];
    let mut all_ops = ops.clone();
    for _ in 0..4 {
        let mut n = vec![];
        for o in &ops {
            if o.contains(&b'e') {
                n.push([o.clone(), vec![b'w']].concat());
                n.push([o.clone(), vec![b'f']].concat());
                continue;
            }
            for x in b"wrzfpue" {
                // what waits unread would be what the next read returns
                if o.iter().any(|y| b"pu".contains(y)) && b"rpe".contains(x) {
                    continue;
                }
                let mut q = o.clone();
                q.push(*x);
                n.push(q);
            }
        }
        all_ops.extend(n.clone());
        ops = n;
    }
    c.bound("close() after every sequence of up to 4 writes, whole and partial reads, empty reads, flushes, records left unread and an end met before");
    let all_ops = &all_ops;
    c.par(all_ops.len(), |i| {
        let mut o = all_ops[i].clone();
        o.push(b'c');
        c.case(&format!("close/{}", String::from_utf8_lossy(&o)), || close_case(&o));
    });
    c.finish()
}
