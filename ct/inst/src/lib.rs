//! Compiled with tracing, like husk itself: the generic parts of the client (`TlsClient<R, W>`,
//! `TlsReader<R>`, `TlsWriter<W>`) are instantiated here.
use husk::tls_result::TlsError;
use husk::TlsClient;
use rand::rngs::OsRng;
use std::io::{self, Read, Write};

pub trait Io {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize>;
    fn write(&mut self, b: &[u8]) -> io::Result<usize>;
    fn flush(&mut self) -> io::Result<()>;
}

pub struct Pipe(pub Box<dyn Io>);

impl Read for Pipe {
    #[inline(never)]
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}

impl Write for Pipe {
    #[inline(never)]
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    #[inline(never)]
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

pub type Client = TlsClient<Pipe, Pipe>;

#[inline(never)]
pub fn connect(r: Pipe, w: Pipe) -> Result<Client, TlsError> {
    TlsClient::new(r, w, OsRng)
}

#[inline(never)]
pub fn read(c: &mut Client, b: &mut [u8]) -> io::Result<usize> {
    c.read(b)
}

#[inline(never)]
pub fn write_all(c: &mut Client, b: &[u8]) -> io::Result<()> {
    c.write_all(b)
}

#[inline(never)]
pub fn close(c: &mut Client) -> bool {
    c.close().is_ok()
}

/// Small functions may be inlined into their caller: called from here, they are traced all the same.
pub mod call {
    use husk::cipher::prf::{hmac_sha256, Prf};
    use husk::cipher::CipherSuite;
    use husk::crypto::p256::int256::Int256;
    use husk::crypto::p256::Point256;
    use husk::crypto::sha2;
    use husk::crypto::wrapping::Wrapping as W;
    use std::hint::black_box;

    macro_rules! f2 { ($($n:ident = $e:expr;)*) => { $( #[inline(never)] pub fn $n(a: &Int256, b: &Int256) { let f: fn(&Int256, &Int256) = $e; f(a, b) } )* } }
    f2! {
        add = |a, b| { black_box(a.add(b)); };
        sub = |a, b| { black_box(a.sub(b)); };
        mult = |a, b| { black_box(a.mult(b)); };
        compare = |a, b| { black_box(a.compare(b)); };
        choose = |a, b| { black_box(Int256::choose(W(a.v[0].0 & 1), a, b)); };
        double = |a, _| { black_box(a.double()); };
        square = |a, _| { black_box(a.square()); };
        inverse = |a, _| { black_box(a.inverse()); };
        halve = |a, _| { black_box(a.divide_by_2()); };
        reduce = |a, _| { black_box(a.reduce_once_zero()); };
        to_bytes = |a, _| { black_box(a.to_bytes()); };
    }
    #[inline(never)]
    pub fn scalar(p: &Point256, k: &Int256) {
        black_box(p.mult_scalar(k).normalize().to_uncompressed_bytes());
    }
    #[inline(never)]
    pub fn sha256(d: &[u8]) {
        black_box(sha2::sha256(d));
    }
    #[inline(never)]
    pub fn hmac(k: &[u8], d: &[u8]) {
        black_box(hmac_sha256(k, d));
    }
    #[inline(never)]
    pub fn prf(k: Vec<u8>, s: Vec<u8>) {
        let mut p = Prf::new(k, s);
        for r in [32, 32, 12, 12] {
            black_box(p.get_bytes(r));
        }
    }
    #[inline(never)]
    pub fn compare_bytes(a: &[u8], b: &[u8]) {
        black_box(husk::util::crypto_compare(a, b));
    }
    const SUITE: CipherSuite = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
    #[inline(never)]
    pub fn seal(k: Vec<u8>, nonce: &[u8], d: &[u8], ad: &[u8]) {
        let mut e = SUITE.new_aead().new_encryptor(k);
        black_box(e.encrypt(nonce, d, ad));
    }
    #[inline(never)]
    pub fn open(k: Vec<u8>, nonce: &[u8], d: &[u8], ad: &[u8]) {
        let mut e = SUITE.new_aead().new_decryptor(k);
        black_box(e.decrypt(nonce, d, ad).is_ok());
    }
}
