//! Independent description of the RFC 5246/4492 presentation language: what byte strings are
//! well-formed encodings, and how values are laid out.  It never calls the code under test.

#[derive(Clone, Debug)]
pub enum Sch {
    /// unsigned big-endian integer of this many bytes
    Num(usize),
    /// enumeration: width in bytes, known values
    Enum(usize, Vec<u64>),
    /// opaque array
    Arr(usize),
    /// vector with byte-length bounds
    List(u64, u64, Box<Sch>),
    Struct(Vec<Sch>),
    /// hello extension
    Ext,
    /// absent when nothing is left, and then it is the last thing
    OptTail(Box<Sch>),
    /// everything that is left
    Rest,
    /// EC parameters: curve type 3 and a named curve
    EcParams,
    Empty,
}
use Sch::*;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    /// lengths do not fit
    Structure,
    /// an enumerated value nobody knows
    Value,
}

pub fn num(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, &x| a << 8 | x as u64)
}

pub fn len_width(max: u64) -> usize {
    if max < 1 << 8 {
        1
    } else if max < 1 << 16 {
        2
    } else if max < 1 << 24 {
        3
    } else {
        4
    }
}

pub fn curves() -> Vec<u64> {
    (1..=25).chain([0xff01, 0xff02]).collect()
}

/// How many bytes of `b` the value takes.
pub fn decode(s: &Sch, b: &[u8]) -> Result<usize, Bad> {
    match s {
        Empty => Ok(0),
        Num(w) | Arr(w) => {
            if b.len() < *w {
                Err(Bad::Structure)
            } else {
                Ok(*w)
            }
        }
        Enum(w, vals) => {
            if b.len() < *w {
                return Err(Bad::Structure);
            }
            if vals.contains(&num(&b[..*w])) {
                Ok(*w)
            } else {
                Err(Bad::Value)
            }
        }
        List(min, max, item) => {
            let w = len_width(*max);
            if b.len() < w {
                return Err(Bad::Structure);
            }
            let n = num(&b[..w]);
            if n < *min || n > *max || (b.len() - w) as u64 * 1 < n {
                return Err(Bad::Structure);
            }
            let body = &b[w..w + n as usize];
            if matches!(**item, Num(1)) {
                return Ok(w + n as usize);
            }
            let mut at = 0;
            while at < body.len() {
                at += decode(item, &body[at..])?;
            }
            Ok(w + n as usize)
        }
        Struct(l) => {
            let mut at = 0;
            for x in l {
                at += decode(x, &b[at..])?;
            }
            Ok(at)
        }
        Ext => {
            if b.len() < 4 {
                return Err(Bad::Structure);
            }
            let n = num(&b[2..4]) as usize;
            if b.len() < 4 + n {
                return Err(Bad::Structure);
            }
            let body = &b[4..4 + n];
            let inner = match num(&b[..2]) {
                10 => List(1, 65535, Box::new(Enum(2, curves()))),
                11 => List(1, 255, Box::new(Enum(1, vec![0, 1, 2]))),
                13 => List(2, 65534, Box::new(sigalg())),
                _ => return Ok(4 + n),
            };
            if decode(&inner, body)? != n {
                return Err(Bad::Structure);
            }
            Ok(4 + n)
        }
        OptTail(x) => {
            if b.is_empty() {
                return Ok(0);
            }
            let n = decode(x, b)?;
            if n != b.len() {
                return Err(Bad::Structure);
            }
            Ok(n)
        }
        Rest => Ok(b.len()),
        EcParams => {
            if b.is_empty() {
                return Err(Bad::Structure);
            }
            if b[0] != 3 {
                return Err(Bad::Value);
            }
            Ok(1 + decode(&Enum(2, curves()), &b[1..])?)
        }
    }
}

pub fn bytes(min: u64, max: u64) -> Sch {
    List(min, max, Box::new(Num(1)))
}

pub fn sigalg() -> Sch {
    Struct(vec![Enum(1, (0..=6).collect()), Enum(1, (0..=3).collect())])
}

pub fn suites() -> Sch {
    List(2, 65534, Box::new(Num(2)))
}

pub fn compression() -> Sch {
    Enum(1, vec![0, 1])
}

pub fn exts() -> Sch {
    List(0, 65535, Box::new(Ext))
}

pub fn client_hello() -> Sch {
    Struct(vec![Num(1), Num(1), Arr(32), bytes(0, 32), suites(), List(1, 255, Box::new(compression())), OptTail(Box::new(exts()))])
}

pub fn server_hello() -> Sch {
    Struct(vec![Num(1), Num(1), Arr(32), bytes(0, 32), Num(2), compression(), OptTail(Box::new(exts()))])
}

pub fn certificate() -> Sch {
    List(0, (1 << 24) - 1, Box::new(bytes(1, (1 << 24) - 1)))
}

pub fn certificate_request() -> Sch {
    Struct(vec![
        List(1, 255, Box::new(Enum(1, vec![1, 2, 3, 4, 5, 6, 20]))),
        List(2, 65534, Box::new(sigalg())),
        List(0, 65535, Box::new(bytes(1, 65535))),
    ])
}

pub fn digitally_signed() -> Sch {
    Struct(vec![sigalg(), bytes(0, 65535)])
}

pub fn ecdhe_params() -> Sch {
    Struct(vec![EcParams, bytes(1, 255)])
}

pub fn ske() -> Sch {
    Struct(vec![EcParams, bytes(1, 255), digitally_signed()])
}

/// Body of a handshake message as the record layer's user sees it.
pub fn body(ty: u8) -> Option<Sch> {
    Some(match ty {
        0 | 14 => Empty,
        1 => client_hello(),
        2 => server_hello(),
        11 => certificate(),
        12 | 16 => Rest,
        13 => certificate_request(),
        20 => Arr(12),
        _ => return None,
    })
}

/// Is the whole body exactly one value?
pub fn exact(s: &Sch, b: &[u8]) -> Result<(), Bad> {
    match decode(s, b) {
        Ok(n) if n == b.len() => Ok(()),
        Ok(_) => Err(Bad::Structure),
        Err(e) => Err(e),
    }
}
