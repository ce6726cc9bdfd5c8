//! C28: integers and blocks are read and written exactly, whatever the transport does.
use husk::util::{u32_be_array, u32_le_array, u64_be_array, u64_le_array, ReadExt, WriteExt};
use mc::net::{failure, KINDS};
use mc::report::{guard, visit, Ctx};
use std::io::{self, ErrorKind, Read, Write};

/// what the transport answers to one call
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    /// hand over, or take, at most this many bytes
    Some(usize),
    Interrupt,
    End,
    Fail(ErrorKind),
}

/// plays a script, then hands over (or takes) everything
struct Wire<'a> {
    script: &'a [Ev],
    at: usize,
    data: &'a [u8],
    pos: usize,
    taken: Vec<u8>,
    calls: u64,
    idle: u32,
}

impl<'a> Wire<'a> {
    fn new(script: &'a [Ev], data: &'a [u8]) -> Wire<'a> {
        Wire { script, at: 0, data, pos: 0, taken: vec![], calls: 0, idle: 0 }
    }
    fn next(&mut self) -> Ev {
        self.calls += 1;
        let e = self.script.get(self.at).copied().unwrap_or(Ev::Some(usize::MAX));
        // the end and a failure are there to stay
        if let Ev::End | Ev::Fail(_) = e {
            self.idle += 1;
            assert!(self.idle < 1000, "LIVELOCK: a transport that has ended is asked again and again");
        } else {
            self.at += 1;
        }
        e
    }
}

impl Read for Wire<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.next() {
            Ev::Some(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
            Ev::Interrupt => Err(failure(ErrorKind::Interrupted, self.calls)),
            Ev::End => Ok(0),
            Ev::Fail(k) => Err(failure(k, self.calls)),
        }
    }
}

impl Write for Wire<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.next() {
            Ev::Some(n) => {
                let n = n.min(buf.len());
                self.taken.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Ev::Interrupt => Err(failure(ErrorKind::Interrupted, self.calls)),
            Ev::End => Ok(0),
            Ev::Fail(k) => Err(failure(k, self.calls)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const FORMS: [(&str, usize, bool); 7] =
    [("u8", 1, true), ("be_u16", 2, true), ("le_u16", 2, false), ("be_u32", 4, true), ("le_u32", 4, false), ("be_u64", 8, true), ("le_u64", 8, false)];

fn read(form: usize, r: &mut impl Read) -> io::Result<u64> {
    match form {
        0 => ReadExt::read_u8(r).map(u64::from),
        1 => r.read_be_u16().map(u64::from),
        2 => r.read_le_u16().map(u64::from),
        3 => r.read_be_u32().map(u64::from),
        4 => r.read_le_u32().map(u64::from),
        5 => r.read_be_u64(),
        _ => r.read_le_u64(),
    }
}

fn write(form: usize, w: &mut impl Write, v: u64) -> io::Result<()> {
    match form {
        0 => w.write_u8(v as u8),
        1 => w.write_be_u16(v as u16),
        2 => w.write_le_u16(v as u16),
        3 => w.write_be_u32(v as u32),
        4 => w.write_le_u32(v as u32),
        5 => w.write_be_u64(v),
        _ => w.write_le_u64(v),
    }
}

/// the bytes of `v` in the order named
fn bytes(form: usize, v: u64) -> ([u8; 8], usize) {
    let (_, n, big) = FORMS[form];
    let mut b = [0u8; 8];
    for i in 0..n {
        let place = if big { n - 1 - i } else { i };
        b[i] = (v >> (8 * place)) as u8;
    }
    (b, n)
}

/// one value through a transport that does what is asked at once
fn plain(form: usize, v: u64) -> Result<(), String> {
    let (b, n) = bytes(form, v);
    let name = FORMS[form].0;
    let mut out = [0x5au8; 9];
    let left = {
        let mut w = &mut out[..];
        write(form, &mut w, v).map_err(|e| format!("write_{} {:#x}: {}", name, v, e))?;
        w.len()
    };
    if left != 9 - n || out[..n] != b[..n] {
        return Err(format!("write_{} {:#x} writes {:x?}", name, v, &out[..9 - left]));
    }
    let mut src = [0xa5u8; 9];
    src[..n].copy_from_slice(&b[..n]);
    let mut r = &src[..];
    let got = read(form, &mut r).map_err(|e| format!("read_{} of {:x?}: {}", name, &b[..n], e))?;
    if got != v || r.len() != 9 - n {
        return Err(format!("read_{} of {:x?} gives {:#x} and leaves {} of 9 bytes", name, &b[..n], got, r.len()));
    }
    let arrays = match form {
        3 => u32_be_array(v as u32)[..] == b[..4],
        4 => u32_le_array(v as u32)[..] == b[..4],
        5 => u64_be_array(v)[..] == b[..],
        6 => u64_le_array(v)[..] == b[..],
        _ => true,
    };
    if !arrays {
        return Err(format!("the array of {} {:#x} is wrong", name, v));
    }
    Ok(())
}

/// every way to answer the calls for `n` bytes: the sizes of the pieces, and before each up to `ints` interruptions
fn scripts(n: usize, ints: usize, f: &mut impl FnMut(&[Ev])) {
    fn go(left: usize, ints: usize, s: &mut Vec<Ev>, f: &mut impl FnMut(&[Ev])) {
        if left == 0 {
            return f(s);
        }
        let at = s.len();
        for i in 0..=ints {
            for k in 1..=left {
                s.push(Ev::Some(k));
                go(left - k, ints, s, f);
                s.pop();
            }
            if i < ints {
                s.push(Ev::Interrupt);
            }
        }
        s.truncate(at);
    }
    go(n, ints, &mut vec![], f)
}

/// one integer over one schedule; `full` says whether all its bytes pass
fn scheduled(form: usize, v: u64, script: &[Ev], full: bool) -> Result<u64, String> {
    let name = FORMS[form].0;
    let (b, n) = bytes(form, v);
    let mut src = [0xc3u8; 12];
    src[..n].copy_from_slice(&b[..n]);
    let mut w = Wire::new(script, &src);
    match (read(form, &mut w), full) {
        (Ok(x), true) if x == v && w.pos == n => {}
        (Err(_), false) => {}
        (x, _) => return Err(format!("read_{} of {:x?} over {:?}: {:x?}, {} bytes consumed", name, &b[..n], script, x, w.pos)),
    }
    let calls = w.calls;
    let mut w = Wire::new(script, &[]);
    let r = write(form, &mut w, v);
    let passed: usize = script.iter().map(|e| if let Ev::Some(k) = e { *k } else { 0 }).sum::<usize>().min(n);
    if r.is_ok() != full || w.taken[..] != b[..passed] {
        return Err(format!("write_{} of {:#x} over {:?}: {:?}, {:x?} written", name, v, script, r, w.taken));
    }
    Ok(calls + w.calls)
}

fn values(n: usize) -> Vec<u64> {
    let all = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
    vec![0x0102_0304_0506_0708 & all, 0xf1e2_d3c4_b5a6_9788 & all, 0, all, 1, 0x80 << (8 * (n - 1))]
}

fn block(n: usize, chunk: usize, cut: Option<usize>, ints: usize, end: Option<(usize, Ev)>) -> Result<(), String> {
    let data: Vec<u8> = (0..n + 7).map(|i| ((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) as u8).collect();
    let mut script = vec![];
    let stop = end.map(|x| x.0).unwrap_or(n);
    let mut at = 0;
    while at < stop {
        for _ in 0..ints {
            script.push(Ev::Interrupt);
        }
        let mut k = chunk.min(stop - at);
        if let Some(c) = cut {
            if at < c && at + k > c {
                k = c - at;
            }
        }
        script.push(Ev::Some(k));
        at += k;
    }
    if let Some((_, e)) = end {
        for _ in 0..ints {
            script.push(Ev::Interrupt);
        }
        script.push(e);
    }
    let what = || format!("{} bytes in pieces of {} (cut at {:?}, {} interruptions before each, end {:?})", n, chunk, cut, ints, end);
    let mut w = Wire::new(&script, &data);
    let mut buf = vec![0xee; n];
    let r = w.fill_exact(&mut buf);
    match (r, end.is_none()) {
        (Ok(()), true) if buf == data[..n] && w.pos == n => {}
        (Err(_), false) => {}
        (r, _) => return Err(format!("fill_exact, {}: {:?}, {} bytes consumed, contents {}", what(), r, w.pos, if buf == data[..n] { "right" } else { "wrong" })),
    }
    let mut w = Wire::new(&script, &data);
    match (ReadExt::read_exact(&mut w, n), end.is_none()) {
        (Ok(v), true) if v == data[..n] && w.pos == n => {}
        (Err(_), false) => {}
        (Ok(v), _) => return Err(format!("read_exact, {}: {} bytes, {} consumed", what(), v.len(), w.pos)),
        (Err(e), _) => return Err(format!("read_exact, {}: {}", what(), e)),
    }
    visit(&[(n as u64) << 32 ^ (chunk as u64) << 16 ^ cut.unwrap_or(0) as u64 ^ (ints as u64) << 56 ^ (stop as u64) << 40]);
    Ok(())
}

fn main() {
    let c = Ctx::new("C28", "model_checking");
    let th = c.thorough();
    c.rule(
        "Every value of 8 and 16 bits and every value of 32 and 64 bits that differs from three backgrounds in two bytes (all 2^32 of 32 bits in the \
         thorough tier), through every reader, writer and array conversion; every integer over every schedule of transport calls (all ways to cut its \
         bytes, up to two interruptions before each piece) and over every such schedule that ends or fails before the last byte; blocks of every length \
         over every piece size, cut and end. Oracle: shifts. Non-trivial: the bytes come in more than one call, or do not all come.",
    );
    for form in 0..7usize {
        let (name, n, _) = FORMS[form];
        if n <= 2 {
            c.case(&format!("values/{}", name), || {
                for v in 0..1u64 << (8 * n) {
                    guard(|| plain(form, v))??;
                }
                c.add_traces((1 << (8 * n)) - 1);
                Ok("value agrees".into())
            });
            continue;
        }
        if n == 4 && th {
            c.par(256, |hi| {
                c.case_within(&format!("all/{}/{}", name, hi), 600, || {
                    guard(|| (0..1u64 << 24).try_for_each(|lo| plain(form, (hi as u64) << 24 | lo)))??;
                    c.add_traces((1 << 24) - 1);
                    Ok("value agrees".into())
                });
            });
        }
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
        c.par(pairs.len(), |p| {
            let (a, b) = pairs[p];
            c.case(&format!("values/{}/{}/{}", name, a, b), || {
                for back in [0u64, u64::MAX, 0x0102_0304_0506_0708] {
                    let back = back & (u64::MAX >> (64 - 8 * n)) & !(0xff << (8 * a)) & !(0xff << (8 * b));
                    guard(|| (0..1u64 << 16).try_for_each(|x| plain(form, back | (x & 0xff) << (8 * a) | (x >> 8) << (8 * b))))??;
                }
                c.add_traces(3 * 65536 - 1);
                Ok("value agrees".into())
            });
        });
    }
    c.bound("values: all of 8 and 16 bits; 32 and 64 bits: all pairs of bytes over three backgrounds");

    for form in 0..7usize {
        let (name, n, _) = FORMS[form];
        let vals = values(n);
        // every schedule that lets all bytes through
        let mut all: Vec<Vec<Ev>> = vec![];
        scripts(n, 2, &mut |s| all.push(s.to_vec()));
        let parts = all.len().div_ceil(500);
        c.par(parts, |p| {
            c.case(&format!("schedule/{}/{}", name, p), || {
                let mut k = 0;
                for s in all.iter().skip(p * 500).take(500) {
                    for &v in &vals {
                        let calls = guard(|| scheduled(form, v, s, true))??;
                        c.add_transitions(calls);
                        k += 1;
                    }
                    visit(&[s.iter().fold(form as u64, |h, e| h.wrapping_mul(0x9e37_79b9) ^ if let Ev::Some(k) = e { *k as u64 } else { 99 })]);
                    c.add_nontrivial((s.len() > 1) as u64);
                }
                c.add_traces(k - 1);
                Ok("integer passes".into())
            });
        });
        // every schedule that ends early, in every way
        let mut ends: Vec<Ev> = vec![Ev::End];
        ends.extend(KINDS.iter().map(|k| Ev::Fail(*k)));
        for stop in 0..n {
            let mut cut: Vec<Vec<Ev>> = vec![];
            scripts(stop, if th || n < 8 { 2 } else { 1 }, &mut |s| cut.push(s.to_vec()));
            c.par(ends.len(), |e| {
                c.case(&format!("end/{}/{}/{:?}", name, stop, ends[e]), || {
                    let mut k = 0;
                    for s in &cut {
                        for ints in 0..2 {
                            let mut s = s.clone();
                            for _ in 0..ints {
                                s.push(Ev::Interrupt);
                            }
                            s.push(ends[e]);
                            for &v in &vals {
                                let calls = guard(|| scheduled(form, v, &s, false))??;
                                c.add_transitions(calls);
                                k += 1;
                            }
                        }
                    }
                    c.add_nontrivial(k);
                    c.add_traces(k - 1);
                    Ok("end inside an integer is reported".into())
                });
            });
        }
        c.bound(format!("{}: {} complete schedules; every schedule ending at each of {} bytes in {} ways", name, all.len(), n, ends.len()));
    }

    let max = if th { 600 } else { 300 };
    c.par(max + 1, |n| {
        c.case(&format!("block/{}", n), || {
            let mut k = 0;
            for chunk in (1..=n.max(1)).filter(|x| *x < 70 || n - x < 3 || th) {
                for ints in [0, 1, 3] {
                    guard(|| block(n, chunk, None, ints, None))??;
                    k += 1;
                }
            }
            for cut in 1..n {
                guard(|| block(n, usize::MAX >> 1, Some(cut), 1, None))??;
                k += 1;
            }
            for stop in 0..n {
                for e in [Ev::End, Ev::Fail(KINDS[stop % KINDS.len()])] {
                    for chunk in [1, 5, usize::MAX >> 1] {
                        guard(|| block(n, chunk, None, 0, Some((stop, e))))??;
                        k += 1;
                    }
                }
            }
            // a long run of interruptions
            guard(|| block(n, usize::MAX >> 1, None, 300, None))??;
            c.add_traces(k);
            c.add_nontrivial(k);
            Ok("block passes".into())
        });
    });
    let big = [1000usize, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 18432, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1];
    c.par(big.len(), |i| {
        c.case(&format!("big/{}", big[i]), || {
            let n = big[i];
            let mut k = 0;
            for chunk in [1usize, 7, 64, 1000, 1448, 4096, 16384, 65536, usize::MAX >> 1] {
                if chunk == 1 && n > 1 << 20 {
                    continue;
                }
                guard(|| block(n, chunk, None, 0, None))??;
                guard(|| block(n, chunk.max(64), None, 1, None))??;
                for stop in [0, 1, n / 2, n - 1] {
                    guard(|| block(n, chunk.max(7), None, 0, Some((stop, Ev::End))))??;
                    guard(|| block(n, chunk.max(7), None, 0, Some((stop, Ev::Fail(ErrorKind::ConnectionReset)))))??;
                }
                k += 10;
            }
            c.add_traces(k);
            c.add_nontrivial(k);
            Ok("block passes".into())
        });
    });
    c.bound(format!("blocks: every length 0..={} x piece sizes x interruptions, every single cut, an end and a failure at every byte; {} long blocks to 2^24 + 1 bytes", max, big.len()));
    c.finish()
}
