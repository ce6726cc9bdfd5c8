//! C08: an attacker on the protected record stream.
use mc::drive::*;
use mc::net::*;
use mc::reftls::*;
use mc::report::Ctx;
use std::io::Write;
use std::sync::OnceLock;

/// the server's stream: plaintexts of the authentic records
fn plain() -> Vec<Vec<u8>> {
    vec![pattern(1, 5), pattern(2, 20), vec![], pattern(3, 1), pattern(4, 33), pattern(5, 16)]
}

/// What the attacker can put on the wire.
#[derive(Clone, Debug)]
struct Item {
    name: String,
    what: What,
}

#[derive(Clone, Debug)]
enum What {
    /// authentic record i
    R(usize),
    /// record i, changed
    M(usize, Change),
    /// header of one, body of the other
    Splice(usize, usize),
    /// the client's own record i sent back
    Reflect(usize),
    /// record i of another connection
    Other(usize),
    /// the server's Finished record again
    Fin,
    Raw(Vec<u8>),
}

#[derive(Clone, Debug)]
enum Change {
    Type(u8),
    Ver(u8, u8),
    Flip(usize, u8),
    FlipEnd(usize, u8),
    /// body cut or extended, length adjusted
    Cut(usize),
    Grow(usize),
    /// body cut in two records
    Split(usize),
    /// only the length field changed
    Len(i32),
    /// a record's worth of bytes removed in the middle of the body, length adjusted
    Tagless,
    Swap(usize, usize),
}

fn apply(r: &[u8], ch: &Change) -> Vec<u8> {
    let mut r = r.to_vec();
    let fix = |b: Vec<u8>, h: &[u8]| {
        let n = b.len();
        let mut v = vec![h[0], h[1], h[2], (n >> 8) as u8, n as u8];
        v.extend(b);
        v
    };
    match ch {
        Change::Type(t) => r[0] = *t,
        Change::Ver(a, b) => {
            r[1] = *a;
            r[2] = *b
        }
        Change::Flip(i, m) => {
            let i = *i % r.len();
            r[i] ^= m
        }
        Change::FlipEnd(i, m) => {
            let n = r.len();
            r[n - 1 - i] ^= m
        }
        Change::Cut(k) => {
            let b = r[5..].to_vec();
            let n = b.len().saturating_sub(*k);
            return fix(b[..n].to_vec(), &r);
        }
        Change::Grow(k) => {
            let mut b = r[5..].to_vec();
            b.extend(vec![0; *k]);
            return fix(b, &r);
        }
        Change::Split(at) => {
            let b = r[5..].to_vec();
            let at = (*at).min(b.len());
            let mut v = fix(b[..at].to_vec(), &r);
            v.extend(fix(b[at..].to_vec(), &r));
            return v;
        }
        Change::Len(d) => {
            let n = ((r[3] as i32) << 8 | r[4] as i32) + d;
            r[3] = (n >> 8) as u8;
            r[4] = n as u8;
        }
        Change::Tagless => {
            let b = r[5..r.len() - 16].to_vec();
            return fix(b, &r);
        }
        Change::Swap(a, b) => {
            let n = r.len();
            r.swap(n - 1 - a, n - 1 - b)
        }
    }
    r
}

fn menu() -> Vec<Item> {
    let mut v = vec![];
    let mut add = |name: String, what: What| v.push(Item { name, what });
    for i in 0..6 {
        add(format!("R{}", i), What::R(i));
    }
    for (n, ch) in [
        ("type=hs", Change::Type(22)),
        ("type=alert", Change::Type(21)),
        ("type=ccs", Change::Type(20)),
        ("type=24", Change::Type(24)),
        ("ver=3.1", Change::Ver(3, 1)),
        ("ver=3.4", Change::Ver(3, 4)),
        ("ver=2.3", Change::Ver(2, 3)),
        ("ct0", Change::Flip(5, 1)),
        ("tag15", Change::FlipEnd(0, 0x80)),
        ("tag0", Change::FlipEnd(15, 1)),
        ("cut1", Change::Cut(1)),
        ("cut16", Change::Cut(16)),
        ("grow1", Change::Grow(1)),
        ("grow16", Change::Grow(16)),
        ("split", Change::Split(18)),
        ("split16", Change::Split(16)),
        ("split1", Change::Split(1)),
        ("len-1", Change::Len(-1)),
        ("len+1", Change::Len(1)),
        ("len+256", Change::Len(256)),
        ("untagged", Change::Tagless),
        ("swaptag", Change::Swap(0, 15)),
    ] {
        // applied to whatever record is next: index usize::MAX
        add(n.to_string(), What::M(usize::MAX, ch));
    }
    for (h, b) in [(0, 1), (1, 0), (1, 4), (4, 1), (3, 0)] {
        add(format!("head{}body{}", h, b), What::Splice(h, b));
    }
    for i in 0..4 {
        add(format!("client{}", i), What::Reflect(i));
    }
    for i in 0..3 {
        add(format!("other{}", i), What::Other(i));
    }
    add("finished".into(), What::Fin);
    add("plain app".into(), What::Raw(rec(APP, b"injected")));
    add("plain app17".into(), What::Raw(rec(APP, &[0x41; 17])));
    add("plain app0".into(), What::Raw(rec(APP, b"")));
    add("plain ccs".into(), What::Raw(rec(CCS, &[1])));
    add("plain close".into(), What::Raw(rec(ALERT, &[1, 0])));
    add("plain fatal".into(), What::Raw(rec(ALERT, &[2, 40])));
    add("plain hello_request".into(), What::Raw(rec(HS, &[0, 0, 0, 0])));
    add("16 zeros".into(), What::Raw(rec(APP, &[0; 16])));
    add("15 zeros".into(), What::Raw(rec(APP, &[0; 15])));
    add("zero key".into(), What::Raw(seal(&[0; 32], &[0; 12], 1, APP, b"zero")));
    add("half header".into(), What::Raw(vec![APP, 3, 3]));
    v
}

/// records of a different connection (fixed, computed once)
fn other(i: usize) -> Vec<u8> {
    static O: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    O.get_or_init(|| {
        let e = establish_seed(default_cfg(), eof, 4242).expect("HARNESS: other connection");
        plain().iter().map(|p| e.seal(APP, p)).collect()
    })[i]
        .clone()
}

struct Stage {
    e: Est,
    recs: Vec<Vec<u8>>,
    client: Vec<Vec<u8>>,
    fin: Vec<u8>,
}

fn stage() -> Result<Stage, String> {
    let mut e = establish(default_cfg(), eof)?;
    for k in 0..3u8 {
        e.c.write_all(&pattern(90 + k, 5 + k as usize)).map_err(|x| format!("write: {}", x))?;
    }
    e.run.sync();
    let client = {
        let w = e.run.world.borrow();
        let rs = split_records(&w.out).0;
        let at = rs.iter().position(|r| r[0] == CCS).ok_or("no ChangeCipherSpec")?;
        rs[at + 1..].to_vec()
    };
    let recs = plain().iter().map(|p| e.seal(APP, p)).collect();
    let fin = {
        let s = e.run.server.borrow();
        let k = s.keys.as_ref().unwrap();
        seal(&k.sw, &k.siv, 0, HS, &s.finished().unwrap())
    };
    Ok(Stage { e, recs, client, fin })
}

fn wire(s: &Stage, it: &Item, next: usize) -> Vec<u8> {
    match &it.what {
        What::R(i) => s.recs[*i].clone(),
        What::M(i, ch) => {
            let k = if *i == usize::MAX { next.min(5) } else { *i };
            apply(&s.recs[k], ch)
        }
        What::Splice(h, b) => {
            let mut v = s.recs[*h][..5].to_vec();
            v.extend_from_slice(&s.recs[*b][5..]);
            v
        }
        What::Reflect(i) => s.client.get(*i).cloned().unwrap_or_default(),
        What::Other(i) => other(*i),
        What::Fin => s.fin.clone(),
        What::Raw(b) => b.clone(),
    }
}

/// Deliver `lead` authentic records and then `items`; what comes out must be a prefix of the
/// server's stream that holds everything authentic before the first manipulation.
fn attack(lead: usize, items: &[&Item], chunk: usize, one_burst: bool) -> Result<String, String> {
    let mut s = stage()?;
    let pl = plain();
    let mut burst: Vec<u8> = s.recs[..lead].concat();
    let mut next = lead;
    let mut intact = true;
    for it in items {
        let b = wire(&s, it, next);
        if intact && next < 6 && b == s.recs[next] {
            next += 1;
        } else {
            intact = false;
        }
        if !one_burst && !burst.is_empty() {
            s.e.push(std::mem::take(&mut burst));
        }
        burst.extend(b);
    }
    s.e.push(burst);
    let must: Vec<u8> = pl[..next].concat();
    let all: Vec<u8> = pl.concat();
    let (got, end) = drain(&mut s.e.c, chunk);
    judge(&got, &must, &all)?;
    // and nothing afterwards either
    let mut more = got;
    let (g, _) = drain(&mut s.e.c, 5);
    more.extend(g);
    judge(&more, &must, &all)?;
    Ok(format!("{} bytes, {}, {}", must.len(), if intact { "untouched" } else { "attacked" }, if end.is_ok() { "end" } else { "error" }))
}

fn judge(got: &[u8], must: &[u8], all: &[u8]) -> Result<(), String> {
    if !all.starts_with(got) {
        return Err(format!("delivered {:02x?}, which is not a prefix of what the server sent ({:02x?})", head(got), head(all)));
    }
    if got.len() < must.len() {
        return Err(format!("only {} of the {} authentic bytes that arrived in order were delivered", got.len(), must.len()));
    }
    Ok(())
}

fn head(b: &[u8]) -> &[u8] {
    &b[..b.len().min(96)]
}

/// The plaintext of record `i` of kind `k`: data, an empty record, a HelloRequest and the two parts of one.
fn kind_of(k: u8, i: usize) -> (u8, Vec<u8>) {
    match k {
        0 => (APP, pattern(i as u8, 4)),
        1 => (APP, vec![]),
        2 => (HS, vec![0; 4]),
        3 => (APP, pattern(i as u8 ^ 0x55, 1)),
        4 => (HS, vec![0; 3]),
        5 => (HS, vec![0; 1]),
        _ => (APP, pattern(i as u8 ^ 0xaa, 300)),
    }
}

/// An authentic stream of records of several kinds, then record `t` out of place (or nothing), then
/// whatever the stream goes on with.
fn mixed(kinds: &[u8], t: Option<u64>) -> Result<String, String> {
    let mut e = establish(default_cfg(), eof)?;
    let k = e.run.server.borrow().keys.clone().unwrap();
    let mut b = vec![];
    let mut must = vec![];
    for (i, &x) in kinds.iter().enumerate() {
        let (ty, p) = kind_of(x, i);
        b.extend(seal(&k.sw, &k.siv, 1 + i as u64, ty, &p));
        if ty == APP {
            must.extend(p);
        }
    }
    let n = kinds.len() as u64;
    let mut all = must.clone();
    match t {
        None => {
            b.extend(seal(&k.sw, &k.siv, 1 + n, APP, b"#"));
            must.extend(b"#");
            all.extend(b"#");
        }
        Some(t) => {
            // whatever stood there, or data if nothing did
            let (ty, p) = kinds.get(t as usize).map_or((APP, b"!".to_vec()), |&x| kind_of(x, t as usize));
            b.extend(seal(&k.sw, &k.siv, 1 + t, ty, &p));
            b.extend(seal(&k.sw, &k.siv, 1 + n, APP, b"#"));
        }
    }
    e.push(b);
    let (got, end) = drain(&mut e.c, 4096);
    judge(&got, &must, &all).map_err(|m| format!("kinds {:?}, then {:?}: {}", kinds, t, m))?;
    if t.is_none() && kinds.iter().all(|k| ![2, 4, 5].contains(k)) && end.is_err() && got != must {
        return Err("an authentic stream is refused".into());
    }
    Ok(if t.is_some() { "refused".into() } else { "delivered".into() })
}

/// 0..s in order, then record t in place of s, then s+1
fn far(s: u64, t: u64, seed: u64) -> Result<String, String> {
    let mut e = establish_seed(default_cfg(), eof, seed)?;
    let k = e.run.server.borrow().keys.clone().unwrap();
    let pt = |i: u64| vec![(i as u8) ^ (i >> 8) as u8 ^ (i >> 16) as u8; 1];
    let mut b = Vec::with_capacity((s as usize + 2) * 22);
    let mut all = Vec::new();
    for i in 0..s {
        b.extend(seal(&k.sw, &k.siv, 1 + i, APP, &pt(i)));
        all.extend(pt(i));
    }
    b.extend(seal(&k.sw, &k.siv, 1 + t, APP, b"!"));
    b.extend(seal(&k.sw, &k.siv, 1 + s + 1, APP, b"?"));
    e.push(b);
    let (got, _) = drain(&mut e.c, 4096);
    if got != all {
        let at = got.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(got.len().min(all.len()));
        return Err(format!("{} records in order, then record {} again or early: {} bytes delivered instead of {}, first difference at {}", s, t, got.len(), all.len(), at));
    }
    Ok("refused".into())
}

fn main() {
    let c = Ctx::new("C08", "model_checking");
    let th = c.thorough();
    c.rule(
        "The server seals six application records (5, 20, 0, 1, 33, 16 bytes). The attacker delivers an authentic prefix and then every sequence of items from a menu of authentic records out of place, changed records, splices, \
         splits, reflections of the client's own records, records of another connection and forged plaintext. Every bit, byte value and pair of tag bits of a record likewise. Oracle: the bytes read are a prefix of the \
         server's stream and contain all authentic records delivered in order before the first manipulation. Replays and gaps at distances 2^k around sequence numbers 2^8 and 2^16, and after streams that mix data with records that carry none.",
    );
    let m = menu();
    // names of the reduced menu for the later positions
    let small: Vec<usize> = m
        .iter()
        .enumerate()
        .filter(|(_, i)| {
            matches!(i.what, What::R(_)) || ["client1", "client2", "ct0", "plain app", "plain ccs", "type=hs", "16 zeros", "finished"].contains(&i.name.as_str())
        })
        .map(|x| x.0)
        .collect();
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for lead in 0..4usize {
        for a in 0..m.len() {
            jobs.push((lead, vec![a]));
            // the leading run is enumerated by `lead`
            if matches!(m[a].what, What::R(i) if i == lead) {
                continue;
            }
            for b in 0..m.len() {
                jobs.push((lead, vec![a, b]));
                let third: Vec<usize> = if th { (0..m.len()).collect() } else { small.clone() };
                if th || small.contains(&b) {
                    for d in third {
                        jobs.push((lead, vec![a, b, d]));
                    }
                }
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (lead, seq) = &jobs[i];
        let items: Vec<&Item> = seq.iter().map(|&k| &m[k]).collect();
        let names: Vec<&str> = items.iter().map(|x| x.name.as_str()).collect();
        c.case(&format!("seq/{}/{}", lead, names.join(",")), || attack(*lead, &items, [4096, 7, 1][i % 3], i % 2 == 0));
    });
    c.bound(format!(
        "{} attacker sequences: 0-3 authentic records, then every item of a menu of {}, then up to 2 further items (third position over {})",
        jobs.len(),
        m.len(),
        if th { m.len() } else { small.len() }
    ));

    // any order of the authentic records: all sequences over R0..R4 of length 4 (thorough: 5 over R0..R5)
    let (w, d) = if th { (6usize, 5u32) } else { (5, 4) };
    let n = w.pow(d);
    c.par(n, |i| {
        let mut x = i;
        let mut seq = vec![];
        for _ in 0..d {
            seq.push(&m[x % w]);
            x /= w;
        }
        let names: Vec<&str> = seq.iter().map(|x| x.name.as_str()).collect();
        c.case(&format!("order/{}", names.join(",")), || attack(0, &seq, 4096, true));
    });
    c.bound(format!("all {} orders, with repetition, of {} records at length {}", n, w, d));

    // every single change of a byte of a record
    let lens: Vec<usize> = plain().iter().map(|p| p.len() + 21).collect();
    let mut flips: Vec<(usize, usize, u8)> = vec![];
    for r in 0..4 {
        for i in 0..lens[r] {
            if th || r == 1 {
                for v in 1..=255u8 {
                    flips.push((r, i, v));
                }
            } else {
                for b in 0..8 {
                    flips.push((r, i, 1 << b));
                }
            }
        }
    }
    c.par(flips.len(), |k| {
        let (r, i, v) = flips[k];
        c.case(&format!("flip/{}/{}/{:02x}", r, i, v), || {
            let it = Item { name: String::new(), what: What::M(r, Change::Flip(i, v)) };
            let nx = Item { name: String::new(), what: What::R(r + 1) };
            attack(r, &[&it, &nx], 4096, true)
        });
    });
    c.bound(format!("{} single-byte changes of records 0-3 (all bits; all values for {})", flips.len(), if th { "all" } else { "record 1" }));

    // pairs of bits in the tag (a comparison that lets differences cancel)
    let mut pairs = vec![];
    for a in 0..128usize {
        for b in 0..a {
            if th || a % 8 == b % 8 || a / 8 == b / 8 {
                pairs.push((a, b));
            }
        }
    }
    c.par(pairs.len(), |k| {
        let (a, b) = pairs[k];
        c.case(&format!("tagpair/{}/{}", a, b), || {
            let mut s = stage()?;
            let mut r = s.recs[0].clone();
            let n = r.len();
            r[n - 16 + a / 8] ^= 1 << (a % 8);
            r[n - 16 + b / 8] ^= 1 << (b % 8);
            s.e.push(r);
            let (got, _) = drain(&mut s.e.c, 64);
            if !got.is_empty() {
                return Err(format!("a record with two wrong tag bits was accepted: {:02x?}", got));
            }
            Ok("refused".into())
        });
    });
    c.bound(format!("{} pairs of tag bits", pairs.len()));

    // distances in sequence numbers
    let mut jobs = vec![];
    for s in [0u64, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536] {
        for k in 0..=32 {
            let d = 1u64 << k;
            jobs.push((s, s + d));
            if s >= d {
                jobs.push((s, s - d));
            }
        }
        // sequence numbers that agree in the low bits
        for t in [1u64 << 40, 1 << 48, 1 << 56, 1 << 63] {
            jobs.push((s, s + t));
        }
        jobs.push((s, s ^ 0x0101));
        jobs.push((s, (s + 1).swap_bytes().wrapping_sub(1)));
    }
    jobs.retain(|j| j.0 != j.1);
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0));
    c.par(jobs.len(), |i| {
        let (s, t) = jobs[i];
        c.case(&format!("far/{}/{}", s, t), || far(s, t, SEED));
    });
    c.bound(format!("{} replays and gaps at power-of-two distances (to 2^63) around sequence numbers 0, 2^8 and 2^16", jobs.len()));

    // records that carry no data advance the sequence number too
    let depth = if th { 7 } else { 5 };
    let mut seqs: Vec<Vec<u8>> = vec![];
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &layer {
            let part = s.last() == Some(&4);
            for k in if part { vec![5u8] } else { vec![0, 1, 2, 4] } {
                let mut x = s.clone();
                x.push(k);
                next.push(x);
            }
        }
        seqs.extend(next.iter().filter(|s| s.last() != Some(&4)).cloned());
        layer = next;
    }
    // longer ones: one period again and again
    for p in [vec![2u8], vec![1], vec![0, 2], vec![0, 1], vec![2, 1], vec![4, 5], vec![0, 4, 5], vec![0, 2, 3], vec![6, 1, 2, 4, 5]] {
        for len in [8usize, 12, 20, 40, 130, 260, if th { 2000 } else { 300 }] {
            let mut v: Vec<u8> = p.iter().cycle().take(len).cloned().collect();
            while v.last() == Some(&4) {
                v.pop();
            }
            seqs.push(v);
        }
    }
    let mut jobs: Vec<(usize, Option<u64>)> = vec![];
    for (i, s) in seqs.iter().enumerate() {
        jobs.push((i, None));
        let n = s.len() as u64;
        for t in 0..n + 4 {
            // near the end, near the start, and every power of two back
            let back = n.abs_diff(t);
            if t != n && (n <= 8 || t < 4 || back <= 4 || back.is_power_of_two()) {
                jobs.push((i, Some(t)));
            }
        }
    }
    c.par(jobs.len(), |i| {
        let (s, t) = (&seqs[jobs[i].0], jobs[i].1);
        let name: String = s.iter().take(24).map(|k| (b'0' + k) as char).collect();
        c.case(&format!("mixed/{}/{}/{:?}", name, s.len(), t), || mixed(s, t));
    });
    c.bound(format!(
        "{} streams of data, empty records, HelloRequests whole and in two records (all sequences up to {}, periodic ones to {}), each with every near record out of place: {} executions",
        seqs.len(),
        depth,
        if th { 2000 } else { 300 },
        jobs.len()
    ));

    // a long authentic stream is delivered whole
    let bits = if th { 27 } else { 22 };
    let total: u64 = (1 << bits) + 400;
    let deep = std::sync::Mutex::new(None);
    c.par(if th { 3 } else { 2 }, |j| {
        if j == 1 {
            c.case_within("stand-in", 600, || {
                let n = mc::report::aux("read", if th { 31 } else { 26 }, 500)?;
                c.add_traces(n.unwrap_or(1) - 1);
                *deep.lock().unwrap() = n;
                Ok("consecutive".into())
            });
            return;
        }
        c.case_within(&format!("long/{}", j / 2), 800, || {
            let mut e = establish_seed(default_cfg(), eof, 70 + j as u64 / 2)?;
            e.run.world.borrow_mut().mute = true;
            let k = e.run.server.borrow().keys.clone().unwrap();
            let mut seq = 1u64;
            while seq < total {
                let mut b = vec![];
                let mut want = vec![];
                for _ in 0..1000 {
                    let p = pattern(seq as u8, (seq % 3) as usize);
                    b.extend(seal(&k.sw, &k.siv, seq, APP, &p));
                    want.extend(p);
                    seq += 1;
                }
                e.push(b);
                let mut buf = vec![0; want.len()];
                std::io::Read::read_exact(&mut e.c, &mut buf).map_err(|x| format!("near record {}: {}", seq, x))?;
                if buf != want {
                    return Err(format!("wrong data near record {}", seq));
                }
            }
            c.add_traces(total);
            Ok("all delivered".into())
        });
    });
    c.bound(format!("one authentic stream of {} records", total));
    if !c.replaying() {
        c.bound(match *deep.lock().unwrap() {
            Some(n) => format!("{} records through the record reader with a stand-in cipher that judges every nonce and additional data", n),
            None => "the record reader does not take a stand-in cipher in this tree: nothing said about it".into(),
        });
    }
    let _ = Feed::Eof;
    c.finish()
}
