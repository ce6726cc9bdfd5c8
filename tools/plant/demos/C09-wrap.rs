#![allow(unused_imports)]
use husk::cipher::Encryptor;
use husk::tls::{ContentType, Record, TlsWriter};
use mc::util::*;
use std::collections::HashSet;

struct Watch(HashSet<[u8; 12]>, u64);
impl Encryptor for Watch {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], _: &[u8]) -> Vec<u8> {
        let n: [u8; 12] = nonce.try_into().unwrap();
        self.1 += 1;
        let again = if self.1 <= 1000 { !self.0.insert(n) } else { self.0.contains(&n) };
        expect(!again, "a nonce is used again");
        plain.to_vec()
    }
}
fn main() {
    let mut w = TlsWriter::new(std::io::sink());
    w.set_iv(vec![7; 12]);
    w.set_encryptor(Box::new(Watch(HashSet::new(), 0)));
    for _ in 0..(1u32 << 24) + 100 {
        w.write_record(Record::new(ContentType::ApplicationDataTy, 3, 3, vec![])).ok();
    }
}
