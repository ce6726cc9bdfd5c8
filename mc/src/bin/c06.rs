//! C06: the PRF output stream does not depend on how it is drawn.
use husk::cipher::prf::Prf;
use mc::drive::pattern;
use mc::refcrypto::*;
use mc::report::Ctx;
use std::collections::BTreeSet;
use std::sync::Mutex;

/// Draw `sizes` in order and compare with the reference stream.
fn draw(secret: &[u8], seed: &[u8], sizes: &[usize], stream: &[u8]) -> Result<usize, String> {
    let mut p = Prf::new(secret.to_vec(), seed.to_vec());
    let mut at = 0;
    for (i, &n) in sizes.iter().enumerate() {
        let b = p.get_bytes(n);
        if b.len() != n {
            return Err(format!("request #{} of {:?}: {} bytes instead of {}", i, sizes, b.len(), n));
        }
        if b[..] != stream[at..at + n] {
            return Err(format!("requests {:?}: request #{} (at offset {}) returns {} instead of {}", sizes, i, at, hex(&b), hex(&stream[at..at + n])));
        }
        at += n;
    }
    Ok(at)
}

fn main() {
    let c = Ctx::new("C06", "model_checking");
    c.rule(
        "The generator is an automaton whose state is (bytes drawn so far mod 32, bytes held back); requests are its transitions. \
         Every request sequence over the size alphabet up to the depth is executed on the real generator and compared byte for byte with the \
         RFC 5246 P_SHA256 stream of an independent implementation. states = distinct (offset mod 32, previous request size) pairs reached, \
         transitions = requests executed.",
    );
    let th = c.thorough();
    let states: Mutex<BTreeSet<(usize, usize)>> = Mutex::new(BTreeSet::new());
    let (sec, seed) = (pattern(3, 48), pattern(9, 77));
    let stream = p_sha256(&sec, &seed, 1200);

    // depth-limited tree over boundary sizes
    let alpha: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 97];
    let depth = if th { 5 } else { 4 };
    c.bound(format!("all sequences of {} request sizes {:?} up to depth {}", alpha.len(), alpha, depth));
    let k = alpha.len();
    c.par(k * k, |r| {
        c.case(&format!("tree/{}-{}", alpha[r / k], alpha[r % k]), || {
            let (mut runs, mut reqs) = (0u64, 0u64);
            let mut st = BTreeSet::new();
            let tail = depth - 2;
            for mut i in 0..k.pow(tail as u32) {
                let mut s = vec![alpha[r / k], alpha[r % k]];
                for _ in 0..tail {
                    s.push(alpha[i % k]);
                    i /= k;
                }
                draw(&sec, &seed, &s, &stream)?;
                let mut at = 0;
                for n in &s {
                    at += n;
                    st.insert((at % 32, *n));
                }
                runs += 1;
                reqs += s.len() as u64;
            }
            states.lock().unwrap().extend(st);
            c.add_traces(runs - 1);
            c.add_transitions(reqs);
            Ok("stream reproduced".into())
        });
    });
    // every size after every size after every offset: 0..=98 x 0..=98 (x 0..=33)
    c.bound("all pairs of request sizes 0..=130; all triples with sizes 0..=40");
    c.par(131, |a| {
        c.case(&format!("pairs/{}", a), || {
            let mut n = 0;
            let mut st = BTreeSet::new();
            for b in 0..=130usize {
                draw(&sec, &seed, &[a, b, 33], &stream)?;
                st.insert((a % 32, a));
                st.insert(((a + b) % 32, b));
                n += 3;
            }
            if a <= 40 {
                for b in 0..=40 {
                    for d in 0..=40 {
                        draw(&sec, &seed, &[a, b, d, 40], &stream)?;
                        st.insert(((a + b + d) % 32, d));
                        n += 4;
                    }
                }
                c.add_traces(41 * 41);
            }
            states.lock().unwrap().extend(st);
            c.add_traces(130);
            c.add_transitions(n);
            Ok("stream reproduced".into())
        });
    });
    // uniform chunk sizes over a long stream
    let long = p_sha256(&sec, &seed, 20_000);
    c.par(200, |i| {
        c.case(&format!("uniform/{}", i + 1), || {
            let n = i + 1;
            let sizes = vec![n; 20_000 / n];
            draw(&sec, &seed, &sizes, &long)?;
            c.add_transitions(sizes.len() as u64);
            Ok("stream reproduced".into())
        });
    });
    // secrets and seeds of every length (keys longer than a block are hashed first)
    let maxk = 140;
    c.bound("secrets of 0..=140 bytes x seeds of 0..=200 bytes, 90 bytes drawn as 48+32+10");
    c.par(maxk + 1, |kl| {
        c.case(&format!("lengths/{}", kl), || {
            let s = pattern(kl as u8, kl);
            for sl in 0..=200usize {
                let sd = pattern(sl as u8 ^ 0x55, sl);
                let st = p_sha256(&s, &sd, 90);
                draw(&s, &sd, &[48, 32, 10], &st).map_err(|e| format!("secret {} bytes, seed {} bytes: {}", kl, sl, e))?;
            }
            c.add_traces(200);
            c.add_transitions(201 * 3);
            Ok("stream reproduced".into())
        });
    });
    // big requests: around every power of two, alone, after a small one and twice
    let top = if th { 20 } else { 17 };
    let huge = p_sha256(&sec, &seed, (1 << top) * 2 + 200);
    let mut big: Vec<usize> = (131..=if th { 2000 } else { 700 }).collect();
    for b in 10..=top {
        big.extend((1usize << b) - 1..=(1usize << b) + 1);
    }
    c.bound(format!("one request of {} sizes up to 2^{} + 1, from each of 7 offsets, followed by small ones", big.len(), top));
    c.par(big.len(), |i| {
        let n = big[i];
        c.case(&format!("big/{}", n), || {
            let offs: &[usize] = if n < 4096 { &[0, 1, 12, 31, 32, 33, 48] } else { &[0, 31, 32] };
            for &o in offs {
                draw(&sec, &seed, &[o, n, 12, 33], &huge)?;
                c.add_transitions(4);
            }
            if n >= 4096 {
                draw(&sec, &seed, &[n, n, 1], &huge)?;
                c.add_transitions(3);
            }
            c.add_traces(offs.len() as u64 - 1);
            Ok("stream reproduced".into())
        });
    });
    // long secrets and seeds: nothing in RFC 5246 bounds them
    let mut ll: Vec<usize> = (141..=if th { 1200 } else { 330 }).collect();
    for b in 9..=16 {
        ll.extend((1usize << b) - 1..=(1usize << b) + 1);
    }
    c.bound(format!("{} secret lengths to 65537 with a 77-byte seed, as many seed lengths with a 48-byte secret", ll.len()));
    c.par(ll.len(), |i| {
        let n = ll[i];
        c.case(&format!("long/{}", n), || {
            let v = pattern(n as u8, n);
            draw(&v, &seed, &[48, 32, 10], &p_sha256(&v, &seed, 90)).map_err(|e| format!("secret of {} bytes: {}", n, e))?;
            draw(&sec, &v, &[48, 32, 10], &p_sha256(&sec, &v, 90)).map_err(|e| format!("seed of {} bytes: {}", n, e))?;
            c.add_traces(1);
            c.add_transitions(6);
            Ok("stream reproduced".into())
        });
    });
    // secrets and seeds by content: every byte value everywhere in turn (zeros, repeats, high bits)
    c.bound("secrets of 48 and seeds of 77 bytes: all zero, all ones, every byte value repeated, and a single one bit at every position");
    c.par(256, |v| {
        c.case(&format!("content/{}", v), || {
            let mut pairs = vec![(vec![v as u8; 48], seed.clone()), (sec.clone(), vec![v as u8; 77]), (vec![v as u8; 48], vec![v as u8; 77])];
            for bit in (v..48 * 8).step_by(256) {
                let mut k = vec![0u8; 48];
                k[bit / 8] |= 1 << (bit % 8);
                pairs.push((k, seed.clone()));
            }
            for bit in (v..77 * 8).step_by(256) {
                let mut k = vec![0u8; 77];
                k[bit / 8] |= 1 << (bit % 8);
                pairs.push((sec.clone(), k));
            }
            for (s, d) in &pairs {
                draw(s, d, &[48, 32, 10], &p_sha256(s, d, 90)).map_err(|e| format!("secret {} seed {}: {}", hex(s), hex(d), e))?;
                c.add_transitions(3);
            }
            c.add_traces(pairs.len() as u64 - 1);
            Ok("stream reproduced".into())
        });
    });
    c.add_states(states.lock().unwrap().len() as u64);
    c.finish()
}
