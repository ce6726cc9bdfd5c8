//! C15: encodings are exact, canonical and strict.
use husk::alert::*;
use husk::cipher::ecdhe::*;
use husk::cipher::{CipherSuite, KeyExchange};
use husk::handshake::*;
use husk::signature::*;
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::tls_result::TlsResult;
use mc::drive::pattern;
use mc::refcrypto::*;
use mc::reftls::*;
use mc::report::Ctx;
use mc::schema::*;
use mc::schema::Sch::{EcParams, Empty, Enum, Ext, List, Num, OptTail, Rest, Struct};
use rand::rngs::OsRng;
use std::io::Cursor;

/// Decode, compare with the description, encode again.
fn item<T: TlsItem>(sch: &Sch, b: &[u8]) -> Result<bool, String> {
    let want = decode(sch, b);
    let mut cur = Cursor::new(b);
    let got: TlsResult<T> = T::tls_read(&mut cur);
    match (want, got) {
        (Err(_), Err(_)) => Ok(false),
        (Err(w), Ok(_)) => Err(format!("{:02x?} is accepted; it is malformed ({:?})", short(b), w)),
        (Ok(_), Err(e)) => Err(format!("{:02x?} is well-formed and refused: {:?} {}", short(b), e.kind, e.desc)),
        (Ok(n), Ok(v)) => {
            if cur.position() != n as u64 {
                return Err(format!("{:02x?}: {} bytes are consumed instead of {}", short(b), cur.position(), n));
            }
            let mut out = Vec::new();
            let size = v.tls_size();
            match v.tls_write(&mut out) {
                Ok(()) => {
                    if out != b[..n] {
                        return Err(format!("{:02x?} encodes again to {:02x?}", short(&b[..n]), short(&out)));
                    }
                }
                Err(e) => {
                    // only a cipher suite nobody knows cannot be written
                    if !has_suites(sch) {
                        return Err(format!("{:02x?} cannot be encoded again: {:?}", short(&b[..n]), e.kind));
                    }
                }
            }
            if size != n as u64 {
                return Err(format!("{:02x?}: declared size {} instead of {}", short(&b[..n]), size, n));
            }
            Ok(true)
        }
    }
}

fn has_suites(s: &Sch) -> bool {
    match s {
        Num(2) => true,
        Struct(l) => l.iter().any(has_suites),
        List(_, _, x) => has_suites(x),
        _ => false,
    }
}

fn short(b: &[u8]) -> &[u8] {
    &b[..b.len().min(60)]
}

/// One handshake message through the reassembly buffer.
fn message(m: &[u8]) -> Result<bool, String> {
    let mut hb = HandshakeBuffer::new();
    hb.add_record(m);
    let want = match body(m[0]) {
        None => false,
        Some(s) => exact(&s, &m[4..]).is_ok(),
    };
    match (want, hb.get_message()) {
        (false, Err(_)) => Ok(false),
        (false, Ok(Some(_))) => Err(format!("the message {:02x?} is accepted; it is malformed", short(m))),
        (true, Err(e)) => Err(format!("the message {:02x?} is well-formed and refused: {:?} {}", short(m), e.kind, e.desc)),
        (_, Ok(None)) => Err(format!("the message {:02x?} is complete and does not come out", short(m))),
        (true, Ok(Some(v))) => {
            let mut out = Vec::new();
            if v.tls_size() != m.len() as u64 {
                return Err(format!("the message {:02x?}: declared size {} instead of {}", short(m), v.tls_size(), m.len()));
            }
            match v.tls_write(&mut out) {
                Ok(()) if out == m => Ok(true),
                Ok(()) => Err(format!("the message {:02x?} encodes again to {:02x?}", short(m), short(&out))),
                Err(_) if m[0] == 1 || m[0] == 2 => Ok(true),
                Err(e) => Err(format!("the message {:02x?} cannot be encoded again: {:?}", short(m), e.kind)),
            }
        }
    }
}

type Check = fn(&Sch, &[u8]) -> Result<bool, String>;

/// A structure, how it is decoded, and the alphabet for its byte strings.
struct Ty {
    name: &'static str,
    sch: Sch,
    f: Check,
    alpha: &'static [u8],
    len: usize,
}

fn types(th: bool) -> Vec<Ty> {
    const SMALL: &[u8] = &[0, 1, 2, 3, 255];
    const CURVE: &[u8] = &[0, 1, 2, 3, 23, 255];
    const EXT: &[u8] = &[0, 1, 2, 4, 10, 11, 13, 23];
    fn ty<T: TlsItem>(name: &'static str, sch: Sch, alpha: &'static [u8], len: usize) -> Ty {
        Ty { name, sch, f: item::<T>, alpha, len }
    }
    let d = th as usize;
    let curve_list = || List(1, 65535, Box::new(Enum(2, curves())));
    vec![
        ty::<u8>("u8", Num(1), SMALL, 2),
        ty::<u16>("u16", Num(2), SMALL, 3),
        ty::<u32>("u32", Num(4), SMALL, 5),
        ty::<u64>("u64", Num(8), &[0, 1, 255], 9),
        ty::<DummyItem>("empty", Empty, SMALL, 2),
        ty::<ObscureData>("opaque", Rest, SMALL, 5),
        ty::<AlertLevel>("AlertLevel", Enum(1, vec![1, 2]), SMALL, 2),
        ty::<Alert>("Alert", alert(), SMALL, 4),
        ty::<CompressionMethod>("CompressionMethod", compression(), SMALL, 2),
        ty::<CompressionMethodVec>("CompressionMethodVec", List(1, 255, Box::new(compression())), &[0, 1, 2, 3, 4], 7 + d),
        ty::<ProtocolVersion>("ProtocolVersion", Struct(vec![Num(1), Num(1)]), SMALL, 3),
        ty::<SessionId>("SessionId", bytes(0, 32), &[0, 1, 2, 3, 4, 32, 33], 6 + d),
        ty::<Asn1Cert>("Asn1Cert", bytes(1, (1 << 24) - 1), &[0, 1, 2, 3, 255], 7 + d),
        ty::<NamedCurve>("NamedCurve", Enum(2, curves()), CURVE, 3),
        ty::<EllipticCurveList>("EllipticCurveList", curve_list(), CURVE, 7 + d),
        ty::<ECPointFormat>("ECPointFormat", Enum(1, vec![0, 1, 2]), SMALL, 2),
        ty::<ECPointFormatList>("ECPointFormatList", List(1, 255, Box::new(Enum(1, vec![0, 1, 2]))), &[0, 1, 2, 3, 4], 7 + d),
        ty::<HashAlgorithm>("HashAlgorithm", Enum(1, (0..=6).collect()), SMALL, 2),
        ty::<SignatureAlgorithm>("SignatureAlgorithm", Enum(1, (0..=3).collect()), SMALL, 2),
        ty::<SignatureAndHashAlgorithm>("SignatureAndHashAlgorithm", sigalg(), &[0, 1, 2, 3, 4, 6, 7], 3),
        ty::<SignatureAndHashAlgorithmVec>("SignatureAndHashAlgorithmVec", List(2, 65534, Box::new(sigalg())), &[0, 1, 2, 3, 4, 7], 7 + d),
        ty::<Signature>("Signature", bytes(0, 65535), SMALL, 6 + d),
        ty::<DigitallySigned>("DigitallySigned", digitally_signed(), &[0, 1, 2, 4, 7], 7 + d),
        ty::<CipherSuite>("CipherSuite", Num(2), &[0, 0xcc, 0xa8, 0x13], 3),
        ty::<CipherSuiteVec>("CipherSuiteVec", suites(), &[0, 2, 4, 0xcc, 0xa8], 7 + d),
        ty::<Extension>("Extension", Ext, EXT, 7 + d),
        ty::<ExtensionVec>("ExtensionVec", exts(), &[0, 1, 4, 5, 6, 10, 11], 7 + d),
        ty::<Option<ExtensionVec>>("Option<ExtensionVec>", OptTail(Box::new(exts())), &[0, 1, 4, 5, 6, 11], 7 + d),
        ty::<CertificateList>("CertificateList", certificate(), &[0, 1, 4, 5], 9 + d),
        ty::<DistinguishedName>("DistinguishedName", bytes(1, 65535), SMALL, 6 + d),
        ty::<DistinguishedNameVec>("DistinguishedNameVec", List(0, 65535, Box::new(bytes(1, 65535))), &[0, 1, 3, 4, 6], 8 + d),
        ty::<CertificateRequest>("CertificateRequest", certificate_request(), &[0, 1, 2, 3, 4], 9 + d),
        ty::<EcData>("EcData", bytes(1, 255), SMALL, 6 + d),
        ty::<EcCurve>("EcCurve", Struct(vec![bytes(1, 255), bytes(1, 255)]), &[0, 1, 2, 3], 7 + d),
        ty::<EcParameters>("EcParameters", EcParams, CURVE, 4),
        ty::<ServerEcdhParams>("ServerEcdhParams", ecdhe_params(), &[0, 1, 2, 3, 23], 7 + d),
        ty::<EcdheServerKeyExchange>("EcdheServerKeyExchange", ske(), &[0, 1, 3, 23], 11),
    ]
}

fn alert() -> Sch {
    let d: Vec<u64> = [0u64, 10, 20, 21, 22, 30].into_iter().chain(40..=51).chain([60, 70, 71, 80, 90, 100]).chain(110..=114).collect();
    Struct(vec![Enum(1, vec![1, 2]), Enum(1, d)])
}

/// All strings over the alphabet of lengths 0..=len.
fn strings(c: &Ctx, t: &Ty) {
    let k = t.alpha.len();
    for n in 0..=t.len {
        let fixed = if n > 4 { 2 } else { 0 };
        let pre = k.pow(fixed as u32);
        c.par(pre, |p| {
            c.case(&format!("strings/{}/{}/{}", t.name, n, p), || {
                let mut b = vec![0u8; n];
                let mut x = p;
                for i in 0..fixed {
                    b[i] = t.alpha[x % k];
                    x /= k;
                }
                let rest = k.pow((n - fixed) as u32);
                let (mut acc, mut total) = (0u64, 0u64);
                for j in 0..rest {
                    let mut x = j;
                    for i in fixed..n {
                        b[i] = t.alpha[x % k];
                        x /= k;
                    }
                    total += 1;
                    if (t.f)(&t.sch, &b)? {
                        acc += 1;
                    }
                }
                if !c.replaying() {
                    c.count("strings decoded", total);
                    c.count("strings accepted", acc);
                    c.add_states(total);
                    c.add_transitions(total + acc);
                    c.add_traces(total - 1);
                }
                Ok(format!("{}: as described", t.name))
            });
        });
    }
}

/// A spread of valid encodings.
fn gen(s: &Sch, rich: bool) -> Vec<Vec<u8>> {
    fn enc_len(max: u64, body: &[u8]) -> Vec<u8> {
        let w = len_width(max);
        let mut o = (body.len() as u64).to_be_bytes()[8 - w..].to_vec();
        o.extend_from_slice(body);
        o
    }
    match s {
        Empty => vec![vec![]],
        Num(w) => vec![vec![0; *w], if *w == 2 { SUITE.to_vec() } else { vec![3; *w] }, vec![255; *w]],
        Sch::Arr(w) => vec![pattern(1, *w), vec![0; *w]],
        Enum(w, v) => {
            let pick: Vec<u64> = if rich { v.clone() } else { vec![v[0], v[v.len() / 2], v[v.len() - 1]] };
            pick.iter().map(|x| x.to_be_bytes()[8 - w..].to_vec()).collect()
        }
        List(min, max, it) => {
            let items = gen(it, false);
            let mut o = vec![];
            if *min == 0 {
                o.push(enc_len(*max, &[]));
            }
            for a in &items {
                o.push(enc_len(*max, a));
                for b in &items {
                    let mut x = a.clone();
                    x.extend(b);
                    o.push(enc_len(*max, &x));
                }
            }
            if rich {
                let mut x = vec![];
                for n in 0..5 {
                    x.extend(&items[n % items.len()]);
                }
                o.push(enc_len(*max, &x));
            }
            o.retain(|e| decode(s, e).is_ok());
            o.dedup();
            o
        }
        Struct(l) => {
            let g: Vec<Vec<Vec<u8>>> = l.iter().map(|x| gen(x, false)).collect();
            let mut o: Vec<Vec<u8>> = vec![];
            // each pair of fields takes all its values, the others their middle one
            let n = g.len();
            let mid = |i: usize| g[i].len() / 2;
            for i in 0..n {
                for j in i..n {
                    for a in 0..g[i].len() {
                        for b in 0..g[j].len() {
                            if i == j && a != b {
                                continue;
                            }
                            let mut x = vec![];
                            for k in 0..n {
                                let p = if k == i { a } else if k == j { b } else { mid(k) };
                                x.extend(&g[k][p]);
                            }
                            o.push(x);
                        }
                    }
                }
            }
            o.sort();
            o.dedup();
            o
        }
        Ext => vec![
            vec![0, 10, 0, 4, 0, 2, 0, 23],
            vec![0, 11, 0, 3, 2, 1, 0],
            vec![0, 13, 0, 4, 0, 2, 4, 1],
            vec![0, 0, 0, 0],
            vec![0xff, 1, 0, 1, 0],
            vec![0, 23, 0, 0],
            vec![0, 12, 0, 2, 0, 0],
        ],
        OptTail(x) => {
            let mut o = vec![vec![]];
            o.extend(gen(x, false));
            o
        }
        Rest => vec![vec![], vec![1], vec![2; 40]],
        EcParams => vec![vec![3, 0, 23], vec![3, 0, 1], vec![3, 0xff, 1]],
    }
}

/// Every one-step edit of an encoding: byte values, cuts, insertions, deletions.
fn edits(v: &[u8], all: bool) -> Vec<Vec<u8>> {
    let mut o = vec![v.to_vec()];
    for i in 0..v.len() {
        let vals: Vec<u8> = if all {
            (0..=255).collect()
        } else {
            vec![0, 1, 2, 3, 4, 5, 6, 10, 11, 13, 23, 31, 32, 33, 34, 127, 128, 253, 254, 255, v[i].wrapping_add(1), v[i].wrapping_sub(1), v[i].wrapping_add(2), v[i].wrapping_sub(2), v[i] ^ 128]
        };
        for b in vals {
            if b != v[i] {
                let mut x = v.to_vec();
                x[i] = b;
                o.push(x);
            }
        }
        o.push(v[..i].to_vec());
        let mut x = v.to_vec();
        x.remove(i);
        o.push(x);
    }
    for i in 0..=v.len() {
        for b in [0u8, 1, 3, 255] {
            let mut x = v.to_vec();
            x.insert(i, b);
            o.push(x);
        }
    }
    o
}

/// Constructors accept exactly the lengths in bounds, and what they make encodes as described.
fn made<T: TlsItem>(what: &str, v: TlsResult<T>, legal: bool, want: impl FnOnce() -> Vec<u8>) -> Result<(), String> {
    match (v, legal) {
        (Err(_), false) => Ok(()),
        (Ok(_), false) => Err(format!("{} is out of bounds and accepted", what)),
        (Err(e), true) => Err(format!("{} is refused: {:?} {}", what, e.kind, e.desc)),
        (Ok(v), true) => {
            let mut o = Vec::new();
            v.tls_write(&mut o).map_err(|e| format!("{} cannot be written: {:?}", what, e.kind))?;
            if o != want() {
                return Err(format!("{} is written as {:02x?}...", what, short(&o)));
            }
            if v.tls_size() != o.len() as u64 {
                return Err(format!("{}: declared size {} instead of {}", what, v.tls_size(), o.len()));
            }
            // and it is read back as itself
            let mut cur = Cursor::new(&o[..]);
            let back = T::tls_read(&mut cur).map_err(|e| format!("{} is not read back: {:?}", what, e.kind))?;
            let mut o2 = Vec::new();
            back.tls_write(&mut o2).map_err(|e| format!("{:?}", e.kind))?;
            if o2 != o || cur.position() != o.len() as u64 {
                return Err(format!("{} is read back as something else", what));
            }
            Ok(())
        }
    }
}

fn with_len(w: usize, b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as u64).to_be_bytes()[8 - w..].to_vec();
    o.extend_from_slice(b);
    o
}

fn main() {
    let c = Ctx::new("C15", "model_checking");
    let th = c.thorough();
    c.rule(
        "An independent description of the presentation language decides which byte strings are well-formed. For every public structure: all strings over a small alphabet up to a \
         length, a spread of valid values of every shape and all their one-step edits (thorough: also two-step), every length bound of every constructor, every value of every \
         enumeration; whole messages through the reassembly buffer. Oracle: accepted iff well-formed, exact consumption, declared size, byte-identical re-encoding.",
    );
    c.assume("an unknown cipher suite is accepted as a placeholder and may refuse to be encoded again");
    let ts = types(th);
    for t in &ts {
        strings(&c, t);
    }
    c.bound(format!("all strings over 3-8 byte alphabets up to lengths 2-11 for {} structures", ts.len()));

    // all one- and two-byte values of the enumerations and small structures
    c.par(256, |h| {
        c.case(&format!("values/{}", h), || {
            for l in 0..=255u8 {
                let b = [h as u8, l];
                for t in &ts {
                    if ["u16", "Alert", "ProtocolVersion", "NamedCurve", "SignatureAndHashAlgorithm", "CipherSuite"].contains(&t.name) {
                        (t.f)(&t.sch, &b).map_err(|e| format!("{}: {}", t.name, e))?;
                    }
                }
                (item::<ServerEcdhParams>)(&ecdhe_params(), &[3, h as u8, l, 1, 9])?;
                message(&hs(h as u8, &[l; 12]))?;
            }
            for t in &ts {
                if ["u8", "AlertLevel", "CompressionMethod", "ECPointFormat", "HashAlgorithm", "SignatureAlgorithm"].contains(&t.name) {
                    (t.f)(&t.sch, &[h as u8]).map_err(|e| format!("{}: {}", t.name, e))?;
                }
            }
            item::<AlertDescription>(&match alert() { Struct(l) => l[1].clone(), _ => Empty }, &[h as u8])?;
            item::<EcParameters>(&EcParams, &[h as u8, 0, 23])?;
            if !c.replaying() {
                c.add_states(256 * 8);
                c.add_transitions(256 * 8);
            }
            Ok("enumerated values".into())
        });
    });
    c.bound("all 256/65536 values of every enumeration and two-byte structure");

    // valid values and their edits
    let mut jobs: Vec<(usize, usize, Vec<u8>)> = vec![];
    for (i, t) in ts.iter().enumerate() {
        for (j, v) in gen(&t.sch, true).into_iter().enumerate() {
            jobs.push((i, j, v));
        }
    }
    c.par(jobs.len(), |n| {
        let (i, j, v) = &jobs[n];
        let t = &ts[*i];
        c.case(&format!("edit/{}/{}", t.name, j), || {
            if !(t.f)(&t.sch, v)? {
                return Err(format!("HARNESS: {:?} is no valid {}", v, t.name));
            }
            let mut n = 0;
            for e in edits(v, true) {
                (t.f)(&t.sch, &e)?;
                n += 1;
                if v.len() <= if th { 9 } else { 6 } {
                    for e in edits(&e, false) {
                        (t.f)(&t.sch, &e)?;
                        n += 1;
                    }
                }
            }
            if !c.replaying() {
                c.count("edits decoded", n);
                c.add_states(n);
                c.add_transitions(n);
                c.add_traces(n);
            }
            Ok(format!("{}: edits as described", t.name))
        });
    });
    c.bound(format!("{} valid encodings, all their one-step edits, and two-step edits of those up to {} bytes", jobs.len(), if th { 9 } else { 6 }));

    // whole handshake messages
    let mut jobs: Vec<(u8, usize, Vec<u8>)> = vec![];
    for ty in [0u8, 1, 2, 11, 12, 13, 14, 16, 20] {
        for (j, v) in gen(&body(ty).unwrap(), true).into_iter().enumerate() {
            jobs.push((ty, j, v));
        }
    }
    c.par(jobs.len(), |n| {
        let (ty, j, v) = &jobs[n];
        c.case(&format!("message/{}/{}", ty, j), || {
            if !message(&hs(*ty, v))? {
                return Err("HARNESS: not a valid message".into());
            }
            let mut n = 0;
            // in the quick tier every byte value only for every eighth of the values
            for e in edits(v, j % if th { 2 } else { 8 } == 0) {
                message(&hs(*ty, &e))?;
                n += 1;
                if th && v.len() <= 24 {
                    for k in 0..e.len() {
                        for b in [e[k].wrapping_add(1), e[k].wrapping_sub(1)] {
                            let mut x = e.clone();
                            x[k] = b;
                            message(&hs(*ty, &x))?;
                            n += 1;
                        }
                    }
                }
            }
            // trailing garbage of every small size
            for k in 1..=40 {
                for b in [0u8, 255] {
                    let mut x = v.clone();
                    x.extend(std::iter::repeat(b).take(k));
                    message(&hs(*ty, &x))?;
                    n += 1;
                }
            }
            // the same body under every other type
            for t in 0..=255u8 {
                message(&hs(t, v))?;
                n += 1;
            }
            if !c.replaying() {
                c.count("messages decoded", n);
                c.add_states(n);
                c.add_transitions(n);
                c.add_traces(n);
            }
            Ok(format!("message {}: as described", ty))
        });
    });
    c.bound(format!("{} handshake messages, their edits, trailing bytes and type swaps", jobs.len()));

    // ServerKeyExchange bodies as the key exchange takes them
    let g = default_cfg();
    let good = g.ske()[4..].to_vec();
    let mut jobs = vec![good.clone()];
    for i in 0..good.len() {
        let heavy = (4..69).contains(&i);
        let vals: Vec<u8> = if heavy { vec![good[i] ^ 1] } else { (0..=255).collect() };
        for b in vals {
            let mut x = good.clone();
            x[i] = b;
            jobs.push(x);
        }
        jobs.push(good[..i].to_vec());
        let mut x = good.clone();
        x.remove(i);
        jobs.push(x);
    }
    for k in 1..=300usize {
        let mut x = good.clone();
        x.extend(pattern(k as u8, k));
        jobs.push(x);
    }
    c.par(jobs.len(), |i| {
        let b = &jobs[i];
        c.case(&format!("ske/{}", i), || {
            getrandom::script(Vec::new(), 1);
            let ok = exact(&ske(), b).is_ok() && b[1..3] == [0, 23] && decode_pt(&b[4..4 + b[3] as usize]).is_some();
            match (EllipticDiffieHellman.compute_keys(b, &mut OsRng), ok) {
                (Ok(_), true) => Ok("key exchange accepted".into()),
                (Err(_), false) => Ok("key exchange refused".into()),
                (Ok(_), false) => Err(format!("a malformed ServerKeyExchange {:02x?}.. is accepted", short(b))),
                (Err(e), true) => Err(format!("a well-formed ServerKeyExchange is refused: {:?} {}", e.kind, e.desc)),
            }
        });
    });
    c.bound(format!("{} ServerKeyExchange bodies through the key exchange itself", jobs.len()));

    // constructors at every bound
    let d = |n: usize| pattern(n as u8, n);
    for n in 0..=300usize {
        c.case(&format!("new/{}", n), || {
            made("Random", Random::new(d(n)), n == 32, || d(n))?;
            made("VerifyData", VerifyData::new(d(n)), n == 12, || d(n))?;
            made("SessionId", SessionId::new(d(n)), n <= 32, || with_len(1, &d(n)))?;
            made("EcData", EcData::new(d(n)), (1..=255).contains(&n), || with_len(1, &d(n)))?;
            made("Asn1Cert", Asn1Cert::new(d(n)), n >= 1, || with_len(3, &d(n)))?;
            made("Signature", Signature::new(d(n)), true, || with_len(2, &d(n)))?;
            made("DistinguishedName", DistinguishedName::new(d(n)), n >= 1, || with_len(2, &d(n)))?;
            made("CompressionMethodVec", CompressionMethodVec::new(vec![CompressionMethod::null; n]), (1..=255).contains(&n), || with_len(1, &vec![0; n]))?;
            made("ECPointFormatList", ECPointFormatList::new(vec![ECPointFormat::ansiX962_compressed_char2; n]), (1..=255).contains(&n), || with_len(1, &vec![2; n]))?;
            let s = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
            made("CipherSuiteVec", CipherSuiteVec::new(vec![s; n]), n >= 1, || with_len(2, &SUITE.repeat(n)))?;
            made("EllipticCurveList", EllipticCurveList::new(vec![NamedCurve::secp521r1; n]), n >= 1, || with_len(2, &[0, 25].repeat(n)))?;
            let cl = |k: usize| CertificateList::new((0..k).map(|i| Asn1Cert::new(d(i + 1)).unwrap()).collect());
            if n < 40 {
                made("CertificateList", cl(n), true, || with_len(3, &(0..n).flat_map(|i| with_len(3, &d(i + 1))).collect::<Vec<_>>()))?;
            }
            made("Handshake(ClientKeyExchange)", through(Handshake::new_client_key_exchange(d(n))), true, || hs(16, &d(n)))?;
            made("Handshake(Finished)", through(Handshake::new_finished(d(n))), n == 12, || hs(20, &d(n)))?;
            Ok("constructors".into())
        });
    }
    for n in [32766usize, 32767, 32768, 65533, 65534, 65535, 65536, 65537, (1 << 24) - 5, (1 << 24) - 4, (1 << 24) - 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1] {
        c.case(&format!("big/{}", n), || {
            let s = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
            let sh = || SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa };
            if n < 70000 {
                made("CipherSuiteVec", CipherSuiteVec::new(vec![s; n]), n <= 32767, || with_len(2, &SUITE.repeat(n)))?;
                made("EllipticCurveList", EllipticCurveList::new(vec![NamedCurve::secp256r1; n]), n <= 32767, || with_len(2, &[0, 23].repeat(n)))?;
                made("SignatureAndHashAlgorithmVec", SignatureAndHashAlgorithmVec::new((0..n).map(|_| sh()).collect()), n <= 32767, || with_len(2, &[4, 1].repeat(n)))?;
                made("Signature", Signature::new(d(n)), n <= 65535, || with_len(2, &d(n)))?;
                made("DistinguishedName", DistinguishedName::new(d(n)), n <= 65535, || with_len(2, &d(n)))?;
            }
            made("Asn1Cert", Asn1Cert::new(d(n)), n < 1 << 24, || with_len(3, &d(n)))?;
            if n + 3 < 1 << 24 {
                made("CertificateList", CertificateList::new(vec![Asn1Cert::new(d(n)).unwrap()]), true, || with_len(3, &with_len(3, &d(n))))?;
            } else if n < 1 << 24 {
                made("CertificateList", CertificateList::new(vec![Asn1Cert::new(d(n)).unwrap()]), false, || vec![])?;
            }
            Ok("constructors at the limits".into())
        });
    }
    c.bound("constructors for every length 0..=300 and around 2^15, 2^16 and 2^24");

    // structures of every size
    let mut sizes: Vec<usize> = (0..=if th { 4200 } else { 1100 }).collect();
    for e in 11..=24u32 {
        for d in -4i64..=4 {
            sizes.push(((1i64 << e) + d) as usize);
        }
    }
    sizes.extend([5000, 10000, 20000, 40000, 60000]);
    sizes.retain(|&n| n < 1 << 24);
    sizes.sort();
    sizes.dedup();
    c.par(sizes.len(), |i| {
        let n = sizes[i];
        for (name, f) in large(n) {
            c.case(&format!("size/{}/{}", name, n), || {
                let k = f().map_err(|e| format!("{} of {} bytes: {}", name, n, e))?;
                if !c.replaying() {
                    c.add_states(k);
                    c.add_transitions(k);
                    c.add_traces(k - 1);
                }
                Ok("sized as described".into())
            });
        }
    });
    c.bound(format!(
        "{} sizes (all to {}, four around every power of two to 2^24) of every vector, alone and inside its structures and messages; lengths one off, one byte missing or too many",
        sizes.len(),
        if th { 4200 } else { 1100 }
    ));

    // the ClientHello constructor
    c.case("client-hello", || {
        for k in 0..4 {
            let mut e = vec![];
            let mut want = vec![];
            if k >= 1 {
                e.push(Extension::new_elliptic_curve_list(vec![NamedCurve::secp256r1]).map_err(|e| e.desc)?);
                want.extend([0, 10, 0, 4, 0, 2, 0, 23]);
            }
            if k >= 2 {
                e.push(Extension::new_ec_point_formats(vec![ECPointFormat::uncompressed]).map_err(|e| e.desc)?);
                want.extend([0, 11, 0, 2, 1, 0]);
            }
            if k >= 3 {
                let sh = SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa };
                e.push(Extension::new_signature_algorithm_list(vec![sh]).map_err(|e| e.desc)?);
                want.extend([0, 13, 0, 4, 0, 2, 4, 1]);
            }
            let r = Random::new(d(32)).map_err(|e| e.desc)?;
            let mut b = vec![3, 3];
            b.extend(d(32));
            b.extend([0, 0, 2, 0xcc, 0xa8, 1, 0]);
            if k >= 1 {
                b.extend(with_len(2, &want));
            }
            let s = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
            made("ClientHello", through(Handshake::new_client_hello(r, s, e)), true, || hs(1, &b))?;
        }
        Ok("ClientHello constructor".into())
    });
    c.finish()
}

/// Handshake messages are read back through the reassembly buffer as well.
fn through(h: TlsResult<Handshake>) -> TlsResult<Handshake> {
    let h = h?;
    let mut o = Vec::new();
    h.tls_write(&mut o)?;
    let mut hb = HandshakeBuffer::new();
    hb.add_record(&o);
    match hb.get_message()? {
        Some(h) => Ok(h),
        None => panic!("a message just written does not come out of the buffer"),
    }
}

type Sized = Box<dyn Fn() -> Result<u64, String>>;

/// Everything with a length field of the right width, with `n` bytes under it.
fn large(n: usize) -> Vec<(String, Sized)> {
    let mut v: Vec<(String, Sized)> = vec![];
    let cyc = |vals: &[u64], w: usize| -> Vec<u8> { vals.iter().flat_map(|x| x.to_be_bytes()[8 - w..].to_vec()).cycle().take(n).collect() };
    let fill = pattern(n as u8, n);
    fn put<T: TlsItem>(v: &mut Vec<(String, Sized)>, name: &str, sch: Sch, b: Vec<u8>) {
        let (nm, lens) = (name.to_string(), widths(&sch));
        let job: Sized = Box::new(move || {
            let mut k = 1;
            item::<T>(&sch, &b)?;
            // with something behind it, and without its last byte
            let mut x = b.clone();
            x.push(1);
            item::<T>(&sch, &x)?;
            x.truncate(b.len().saturating_sub(1));
            item::<T>(&sch, &x)?;
            // the outermost length one off
            if let Some((at, w)) = lens {
                if b.len() >= at + w {
                    let l = num(&b[at..at + w]);
                    for l in [l + 1, l.wrapping_sub(1), l + 2, l ^ 0x80, l ^ 0x8000] {
                        let mut x = b.clone();
                        x[at..at + w].copy_from_slice(&l.to_be_bytes()[8 - w..]);
                        item::<T>(&sch, &x)?;
                        k += 1;
                    }
                }
            }
            Ok(k + 2)
        });
        v.push((nm, job));
    }
    fn msg(v: &mut Vec<(String, Sized)>, name: &str, ty: u8, b: Vec<u8>) {
        let job: Sized = Box::new(move || {
            if b.len() >= 1 << 24 {
                return Ok(1);
            }
            message(&hs(ty, &b))?;
            if b.len() + 1 < 1 << 24 {
                let mut x = b.clone();
                x.push(0);
                message(&hs(ty, &x))?;
            }
            if !b.is_empty() {
                message(&hs(ty, &b[..b.len() - 1]))?;
            }
            Ok(3)
        });
        v.push((name.to_string(), job));
    }
    let hello = |suites: Option<Vec<u8>>, ext: Option<Vec<u8>>| {
        let mut b = vec![3, 3];
        b.extend(pattern(9, 32));
        b.push(0);
        match suites {
            Some(s) => {
                b.extend(with_len(2, &s));
                b.extend([1, 0]);
            }
            None => {
                b.extend(SUITE);
                b.push(0);
            }
        }
        if let Some(e) = ext {
            b.extend(with_len(2, &e));
        }
        b
    };
    let suite = SUITE.iter().cloned().cycle().take(n).collect::<Vec<u8>>();
    let hashes: Vec<u64> = (0..=6u64).flat_map(|h| (0..=3u64).map(move |s| h << 8 | s)).collect();
    if n < 1 << 8 {
        put::<CompressionMethodVec>(&mut v, "CompressionMethodVec", List(1, 255, Box::new(compression())), with_len(1, &cyc(&[0, 1], 1)));
        put::<ECPointFormatList>(&mut v, "ECPointFormatList", List(1, 255, Box::new(Enum(1, vec![0, 1, 2]))), with_len(1, &cyc(&[0, 1, 2], 1)));
        put::<EcData>(&mut v, "EcData", bytes(1, 255), with_len(1, &fill));
        put::<SessionId>(&mut v, "SessionId", bytes(0, 32), with_len(1, &fill));
        put::<EcCurve>(&mut v, "EcCurve", Struct(vec![bytes(1, 255), bytes(1, 255)]), [with_len(1, &fill), with_len(1, &fill)].concat());
        put::<ServerEcdhParams>(&mut v, "ServerEcdhParams", ecdhe_params(), [&[3, 0, 23][..], &with_len(1, &fill)].concat());
        put::<Extension>(&mut v, "Extension 11", Ext, [&[0, 11][..], &with_len(2, &with_len(1, &cyc(&[0, 1, 2], 1)))].concat());
        let types = |l: &[u8]| [with_len(1, l), with_len(2, &[4, 1]), with_len(2, &[])].concat();
        msg(&mut v, "CertificateRequest types", 13, types(&cyc(&[1, 2, 3, 4, 5, 6, 20], 1)));
        let mut h = hello(Some(SUITE.to_vec()), None);
        h.truncate(h.len() - 2);
        h.extend(with_len(1, &cyc(&[0, 1], 1)));
        msg(&mut v, "ClientHello compression", 1, h);
    }
    if n < 1 << 16 {
        put::<EllipticCurveList>(&mut v, "EllipticCurveList", List(1, 65535, Box::new(Enum(2, curves()))), with_len(2, &cyc(&curves(), 2)));
        put::<SignatureAndHashAlgorithmVec>(&mut v, "SignatureAndHashAlgorithmVec", List(2, 65534, Box::new(sigalg())), with_len(2, &cyc(&hashes, 2)));
        put::<Signature>(&mut v, "Signature", bytes(0, 65535), with_len(2, &fill));
        put::<DigitallySigned>(&mut v, "DigitallySigned", digitally_signed(), [&[4, 1][..], &with_len(2, &fill)].concat());
        put::<CipherSuiteVec>(&mut v, "CipherSuiteVec", suites(), with_len(2, &suite));
        put::<DistinguishedName>(&mut v, "DistinguishedName", bytes(1, 65535), with_len(2, &fill));
        for ty in [0u16, 9, 12, 14, 23, 0x3374, 0xff01, 0xffff] {
            put::<Extension>(&mut v, &format!("Extension {}", ty), Ext, [&ty.to_be_bytes()[..], &with_len(2, &fill)].concat());
        }
        if n + 2 < 1 << 16 {
            put::<Extension>(&mut v, "Extension 10", Ext, [&[0, 10][..], &with_len(2, &with_len(2, &cyc(&curves(), 2)))].concat());
            put::<Extension>(&mut v, "Extension 13", Ext, [&[0, 13][..], &with_len(2, &with_len(2, &cyc(&hashes, 2)))].concat());
        }
        let sig = [&[3, 0, 23][..], &with_len(1, &pattern(4, 65)), &[4, 1], &with_len(2, &fill)].concat();
        put::<EcdheServerKeyExchange>(&mut v, "EcdheServerKeyExchange", ske(), sig.clone());
        msg(&mut v, "ServerKeyExchange", 12, sig);
        // extensions: one of the whole size, and many small ones
        let one = if n >= 4 { [&[0, 23][..], &with_len(2, &fill[4..])].concat() } else { vec![0; n] };
        let mut many: Vec<u8> = vec![];
        while many.len() + 8 <= n {
            let k = many.len() / 5 % 4;
            many.extend([0x33, k as u8]);
            many.extend(with_len(2, &fill[..k]));
        }
        let rest = n - many.len();
        many.extend(if rest >= 4 { [&[0x44, 1][..], &with_len(2, &fill[..rest - 4])].concat() } else { vec![0; rest] });
        for (how, e) in [("one", one), ("many", many)] {
            put::<ExtensionVec>(&mut v, &format!("ExtensionVec {}", how), exts(), with_len(2, &e));
            put::<Option<ExtensionVec>>(&mut v, &format!("Option<ExtensionVec> {}", how), OptTail(Box::new(exts())), with_len(2, &e));
            msg(&mut v, &format!("ClientHello extensions {}", how), 1, hello(Some(SUITE.to_vec()), Some(e.clone())));
            msg(&mut v, &format!("ServerHello extensions {}", how), 2, hello(None, Some(e)));
        }
        msg(&mut v, "ClientHello suites", 1, hello(Some(suite), None));
        // names
        let one = if n >= 2 { with_len(2, &fill[2..]) } else { vec![0; n] };
        let mut many: Vec<u8> = vec![];
        while many.len() + 8 <= n {
            many.extend(with_len(2, &fill[..many.len() / 3 % 3 + 1]));
        }
        let rest = n - many.len();
        many.extend(if rest >= 2 { with_len(2, &fill[..rest - 2]) } else { vec![0; rest] });
        for (how, e) in [("one", one), ("many", many)] {
            put::<DistinguishedNameVec>(&mut v, &format!("DistinguishedNameVec {}", how), List(0, 65535, Box::new(bytes(1, 65535))), with_len(2, &e));
            let b = [with_len(1, &[1, 20]), with_len(2, &[4, 1, 2, 3]), with_len(2, &e)].concat();
            put::<CertificateRequest>(&mut v, &format!("CertificateRequest {}", how), certificate_request(), b.clone());
            msg(&mut v, &format!("CertificateRequest names {}", how), 13, b);
        }
        let b = [with_len(1, &[1]), with_len(2, &cyc(&hashes, 2)), with_len(2, &[])].concat();
        msg(&mut v, "CertificateRequest algorithms", 13, b);
    }
    put::<Asn1Cert>(&mut v, "Asn1Cert", bytes(1, (1 << 24) - 1), with_len(3, &fill));
    put::<ObscureData>(&mut v, "opaque", Rest, fill.clone());
    let one = if n >= 3 { with_len(3, &fill[3..]) } else { vec![0; n] };
    let mut many: Vec<u8> = vec![];
    while many.len() + 12 <= n {
        // few large ones where there is much to fill
        let k = (many.len() / 4 % 4 + 1).max(n / 4096);
        many.extend(with_len(3, &fill[..k.min(n - many.len() - 8)]));
    }
    let rest = n - many.len();
    many.extend(if rest >= 3 { with_len(3, &fill[..rest - 3]) } else { vec![0; rest] });
    for (how, e) in [("one", one), ("many", many)] {
        put::<CertificateList>(&mut v, &format!("CertificateList {}", how), certificate(), with_len(3, &e));
        msg(&mut v, &format!("Certificate {}", how), 11, with_len(3, &e));
    }
    for ty in [12u8, 16] {
        msg(&mut v, &format!("opaque message {}", ty), ty, fill.clone());
    }
    if n < 70000 {
        for ty in [0u8, 14, 20, 15, 4] {
            msg(&mut v, &format!("message {}", ty), ty, fill.clone());
        }
    }
    v
}

/// Where the outermost length field stands and how wide it is.
fn widths(s: &Sch) -> Option<(usize, usize)> {
    match s {
        List(_, max, _) => Some((0, len_width(*max))),
        Ext => Some((2, 2)),
        OptTail(x) => widths(x),
        _ => None,
    }
}
