"""Edits of husk that keep every property: the checks have to stay quiet on each of them."""
T, C, H, U = "src/tls.rs", "src/client.rs", "src/handshake.rs", "src/util.rs"
E, P, I, A = "src/cipher/ecdhe.rs", "src/crypto/p256.rs", "src/tls_item.rs", "src/alert.rs"
X, F, S, K, M = "src/cipher/chacha20_poly1305.rs", "src/cipher/prf.rs", "src/crypto/sha2.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs"
R = []
def r(id, edits, note=""):
    R.append(dict(id=id, edits=edits, note=note))

r("one-write-per-record", [(T, """        self.writer.write_u8(record.content_type as u8)?;
        self.writer.write_u8(record.ver_major)?;
        self.writer.write_u8(record.ver_minor)?;
        self.writer.write_be_u16(fragment_len as u16)?;
        self.writer.write_all(&encrypted_fragment)?;
""", """        let mut out = Vec::with_capacity(5 + fragment_len);
        out.write_u8(record.content_type as u8)?;
        out.write_u8(record.ver_major)?;
        out.write_u8(record.ver_minor)?;
        out.write_be_u16(fragment_len as u16)?;
        out.extend_from_slice(&encrypted_fragment);
        self.writer.write_all(&out)?;
""")])
r("header-at-once", [(T, """        let content_type = {
            let ty = self.reader.read_u8()?;
            let ct: Option<ContentType> = FromPrimitive::from_u8(ty);""", """        let header = ReadExt::read_exact(&mut self.reader, 5)?;
        let content_type = {
            let ty = header[0];
            let ct: Option<ContentType> = FromPrimitive::from_u8(ty);"""),
 (T, """        let major = self.reader.read_u8()?;
        let minor = self.reader.read_u8()?;
""", """        let (major, minor) = (header[1], header[2]);
"""), (T, "let len = self.reader.read_be_u16()? as usize;", "let len = (header[3] as usize) << 8 | header[4] as usize;")], "waits for the whole header before judging the type")
r("read-deque", [(C, "use std::cmp;\n", "use std::cmp;\nuse std::collections::VecDeque;\n"),
 (C, "    buf: Vec<u8>,\n", "    buf: VecDeque<u8>,\n"), (C, "            buf: Vec::new(),\n", "            buf: VecDeque::new(),\n"),
 (C, """            copy_memory(&self.buf[..necessary], &mut buf[pos..pos + necessary]);
            pos += necessary;

            self.buf = self.buf[necessary..].to_vec();
""", """            for (to, from) in buf[pos..pos + necessary].iter_mut().zip(self.buf.drain(..necessary)) {
                *to = from;
            }
            pos += necessary;
"""), (C, """// A replacement for the deprecated std::slice::bytes::copy_memory
fn copy_memory(from: &[u8], mut to: &mut [u8]) -> usize {
    to.write(from).unwrap()
}

""", "")])
r("read-position", [(C, "    buf: Vec<u8>,\n", "    buf: Vec<u8>,\n    buf_pos: usize,\n"), (C, "            buf: Vec::new(),\n", "            buf: Vec::new(),\n            buf_pos: 0,\n"),
 (C, "            if self.buf.is_empty() {\n", "            if self.buf_pos == self.buf.len() {\n"),
 (C, "                self.buf.extend(&data);\n", "                self.buf = data;\n                self.buf_pos = 0;\n"),
 (C, "            let selflen = self.buf.len();\n", "            let selflen = self.buf.len() - self.buf_pos;\n"),
 (C, """            copy_memory(&self.buf[..necessary], &mut buf[pos..pos + necessary]);
            pos += necessary;

            self.buf = self.buf[necessary..].to_vec();
""", """            let from = &self.buf[self.buf_pos..self.buf_pos + necessary];
            copy_memory(from, &mut buf[pos..pos + necessary]);
            pos += necessary;
            self.buf_pos += necessary;
""")])
r("short-reads", [(C, "        while pos < len {\n", "        while pos < len && pos == 0 {\n")], "read() returns as soon as it has something, as io::Read allows")
r("short-writes", [(C, """        self.write_all(buf)?;
        Ok(buf.len())
""", """        let n = cmp::min(buf.len(), 10_000);
        self.write_all(&buf[..n])?;
        Ok(n)
""")], "write() takes at most 10000 bytes, as io::Write allows")
r("key-block", [(C, """            let write_key = prf.get_bytes(enc_key_length);
            let encryptor = aead.new_encryptor(write_key);
            self.writer.set_encryptor(encryptor);

            // this will be set after receiving ChangeCipherSpec.
            let read_key = prf.get_bytes(enc_key_length);

            let write_iv = prf.get_bytes(12);
            let read_iv = prf.get_bytes(12);

            self.writer.set_iv(write_iv);
            self.reader.set_iv(read_iv);

            read_key //TODO: modify chacha20 nonce iv
""", """            let block = prf.get_bytes(2 * enc_key_length + 24);
            let (keys, ivs) = block.split_at(2 * enc_key_length);
            self.writer.set_iv(ivs[..12].to_vec());
            self.reader.set_iv(ivs[12..].to_vec());
            let encryptor = aead.new_encryptor(keys[..enc_key_length].to_vec());
            self.writer.set_encryptor(encryptor);

            // this will be set after receiving ChangeCipherSpec.
            keys[enc_key_length..].to_vec()
""")])
r("keys-before-messages", [(C, """        let client_key_exchange = Handshake::new_client_key_exchange(key_data)?;
        self.writer.write_handshake(&client_key_exchange)?;

        self.writer.write_change_cipher_spec()?;

        // SECRET
        let master_secret = {""", """        let client_key_exchange = Handshake::new_client_key_exchange(key_data)?;

        // SECRET
        let master_secret = {"""), (C, """        let aead = cipher_suite.new_aead();
""", """        let aead = cipher_suite.new_aead();

        self.writer.write_handshake(&client_key_exchange)?;
        self.writer.write_change_cipher_spec()?;
""")])
r("point-after-hello-done", [(C, """        let kex = cipher_suite.new_kex();
        let (key_data, pre_master_secret) = kex.compute_keys(&server_key_ex_data, &mut self.rng)?;

        expect!(server_hello_done);
""", """        expect!(server_hello_done);

        let kex = cipher_suite.new_kex();
        let (key_data, pre_master_secret) = kex.compute_keys(&server_key_ex_data, &mut self.rng)?;
""")], "judges the server's key share only after ServerHelloDone")
r("checks-reordered", [(C, """            if server_hello_data.cipher_suite != cipher_suite {
                return tls_err!(
                    IllegalParameter,
                    "cipher suite mismatch: found {:?}",
                    server_hello_data.cipher_suite
                );
            }

            if server_hello_data.compression_method != handshake::CompressionMethod::null {
                return tls_err!(IllegalParameter, "compression method mismatch");
            }
""", """            let bad_compression =
                server_hello_data.compression_method != handshake::CompressionMethod::null;
            let bad_suite = server_hello_data.cipher_suite != cipher_suite;
            if bad_compression || bad_suite {
                return tls_err!(IllegalParameter, "not what we offered");
            }
""")])
r("incremental-transcript", [(C, """        self.writer.write_handshake(&client_hello)?;
        self.writer.flush()?;

        let server_hello_data = expect!(server_hello);
""", """        self.writer.write_handshake(&client_hello)?;
        self.writer.flush()?;

        let mut msgs = Vec::new();
        client_hello.tls_write(&mut msgs)?;

        let server_hello_data = expect!(server_hello);
"""), (C, """        // we always expect certificate.
        let certificate_list = expect!(certificate);
        // TODO: cert validation not implemented yet

        // we always use server key exchange
        let server_key_ex_data = expect!(server_key_exchange);
""", """        let server_random = server_hello_data.random.to_vec();
        Handshake::server_hello(server_hello_data).tls_write(&mut msgs)?;

        // we always expect certificate.
        // TODO: cert validation not implemented yet
        Handshake::certificate(expect!(certificate)).tls_write(&mut msgs)?;

        // we always use server key exchange
        let server_key_ex_data = expect!(server_key_exchange);
        Handshake::server_key_exchange(crate::tls_item::ObscureData::new(server_key_ex_data.to_vec()))
            .tls_write(&mut msgs)?;
"""), (C, "            label_seed.extend(&cli_random);\n            label_seed.extend(&server_hello_data.random[..]);\n", "            label_seed.extend(&cli_random);\n            label_seed.extend(&server_random);\n"),
 (C, "            label_seed.extend(&server_hello_data.random[..]);\n            label_seed.extend(&cli_random);\n", "            label_seed.extend(&server_random);\n            label_seed.extend(&cli_random);\n"),
 (C, """        let msgs = {
            let mut msgs = Vec::new();
            client_hello.tls_write(&mut msgs)?;
            Handshake::server_hello(server_hello_data).tls_write(&mut msgs)?;
            Handshake::certificate(certificate_list).tls_write(&mut msgs)?;
            Handshake::server_key_exchange(server_key_ex_data).tls_write(&mut msgs)?;
            Handshake::server_hello_done(DummyItem).tls_write(&mut msgs)?;
            client_key_exchange.tls_write(&mut msgs)?;
            msgs
        };
""", """        Handshake::server_hello_done(DummyItem).tls_write(&mut msgs)?;
        client_key_exchange.tls_write(&mut msgs)?;
""")])
r("extra-flushes", [(C, "        self.writer.write_change_cipher_spec()?;\n", "        self.writer.flush()?;\n        self.writer.write_change_cipher_spec()?;\n        self.writer.flush()?;\n"),
 (C, "        let result = self.writer.write_application_data(buf);\n", "        let result = self.writer.write_application_data(buf).and_then(|_| self.writer.flush());\n")])
r("rng-bytes", [(E, """                for i in 0..8 {
                    x.v[i] = W(rng.next_u32());
                }
""", """                let mut bytes = [0u8; 32];
                rng.fill_bytes(&mut bytes);
                for (limb, b) in x.v.iter_mut().zip(bytes.chunks(4)) {
                    *limb = W(u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
                }
""")], "draws the private key in one piece")
r("rng-hello-late", [(C, """        let cli_random = {
            let mut random_bytes = [0u8; 32];
            self.rng.fill_bytes(&mut random_bytes);
            random_bytes.to_vec()
        };
        let random""", """        let cli_random = {
            let mut random_bytes = Vec::new();
            for _ in 0..4 {
                random_bytes.extend(&self.rng.next_u64().to_be_bytes());
            }
            random_bytes
        };
        let random""")])
r("mult-helper", [(P, """                let ret2 = ret.double();
                let ret3 = ret2.add(self);

                ret = Point256::choose(bit, &ret2, &ret3);
""", """                ret = self.ladder_step(&ret, bit);
"""), (P, """    pub fn mult_scalar(&self, n: &Int256) -> Point256 {
""", """    fn ladder_step(&self, acc: &Point256, bit: w32) -> Point256 {
        let doubled = acc.double();
        let added = doubled.add(self);
        Point256::choose(bit, &doubled, &added)
    }

    pub fn mult_scalar(&self, n: &Int256) -> Point256 {
""")])
r("field-iterators", [(P, """            for i in 0..LIMBS {
                diff |= self.v[i] ^ b.v[i];
            }
            diff = diff | diff >> 16;
            diff = diff | diff >> 8;
            diff = diff | diff >> 4;
            diff = diff | diff >> 2;
            diff = diff | diff >> 1;
            diff & W(1)
""", """            for (x, y) in self.v.iter().zip(b.v.iter()) {
                diff = diff | (*x ^ *y);
            }
            let d = diff.0;
            W((d | d.wrapping_neg()) >> 31)
"""), (P, """            for i in 0..LIMBS {
                // add <= 2^33
                let add = self.v[i].to_w64() + b.v[i].to_w64() + carry;
                v.v[i] = add.to_w32();
                carry = add >> 32;
            }
""", """            for (out, (x, y)) in v.v.iter_mut().zip(self.v.iter().zip(b.v.iter())) {
                // add <= 2^33
                let add = x.to_w64() + y.to_w64() + carry;
                *out = add.to_w32();
                carry = add >> 32;
            }
"""), (P, """                *v = a.v[i] ^ (flag * (a.v[i] ^ b.v[i]));
""", """                let mask = W(0u32) - flag;
                *v = (a.v[i] & (mask ^ W(0xffff_ffff))) | (b.v[i] & mask);
""")])
r("sub-borrow", [(P, """            let (v2, _carry_add) = v.add_no_reduce(&P256);
            debug_assert!(!(_carry_add.0 == 0 && carry_sub.0 == 1));
            Int256::choose(carry_sub, &v, &v2)
""", """            let addend = Int256::choose(carry_sub, &ZERO, &P256);
            v.add_no_reduce(&addend).0
""")])
r("normalize-one-inverse", [(P, """        let x = self.x.mult(&z2.inverse());
        let y = self.y.mult(&z3.inverse());
""", """        let zi3 = z3.inverse();
        let zi2 = zi3.mult(&self.z);
        let x = self.x.mult(&zi2);
        let y = self.y.mult(&zi3);
        let _ = z2;
""")])
r("compare-fold", [(U, """    let mut diff = 0u8;
    for i in 0..a.len() {
        diff |= a[i] ^ b[i];
    }
    diff = diff | (diff >> 4);
    diff = diff | (diff >> 2);
    diff = diff | (diff >> 1);
    diff = diff & 1;
    return diff == 0;
""", """    a.iter().zip(b).fold(0u8, |diff, (x, y)| diff | (x ^ y)) == 0
""")])
r("tag-by-compare", [(X, """        let mut diff = 0u8;
        for i in 0..MAC_LEN {
            diff |= mac_computed[i] ^ mac_expected[i];
        }

        if diff != 0 {""", """        if !crate::util::crypto_compare(&mac_computed, mac_expected) {""")])
r("mac-padding-helper", [(X, """    msg.extend(ad);
    let padding_len = 16 - (ad.len() % 16);
    if padding_len != 16 {
        msg.extend(iter::repeat(0).take(padding_len));
    }
    msg.extend(encrypted);
    let padding_len = 16 - (encrypted.len() % 16);
    if padding_len != 16 {
        msg.extend(iter::repeat(0).take(padding_len));
    }
""", """    fn padded(msg: &mut Vec<u8>, part: &[u8]) {
        msg.extend_from_slice(part);
        let n = msg.len();
        msg.resize((n + 15) / 16 * 16, 0);
    }
    padded(&mut msg, ad);
    padded(&mut msg, encrypted);
"""), (X, "use std::iter;\n\n", "")])
r("prf-buffer", [(F, """        let mut ret = {
            let buflen = self.buf.len();
            if buflen > 0 {
                if buflen <= size {
                    mem::replace(&mut self.buf, Vec::new())
                } else {
                    let rest = self.buf[size..].to_vec();
                    let mut buf = mem::replace(&mut self.buf, rest);
                    buf.truncate(size);
                    buf
                }
            } else {
                Vec::new()
            }
        };

        while ret.len() < size {
            let next_block = self.next_block();
            let slice_len = size - ret.len();
            if slice_len > 32 {
                ret.extend(&next_block);
            } else {
                ret.extend(&next_block[..slice_len]);
                self.buf = next_block[slice_len..].to_vec();
                break;
            };
        }

        ret
""", """        while self.buf.len() < size {
            let next_block = self.next_block();
            self.buf.extend_from_slice(&next_block);
        }
        let rest = self.buf.split_off(size);
        mem::replace(&mut self.buf, rest)
""")])
r("drain-messages", [(H, """        let (message, remaining) = {
            let (message, remaining) = self.buf.split_at_mut(wanted_len);
            let message = message.to_vec();
            let remaining = remaining.to_vec();
            (message, remaining)
        };
        self.buf = remaining;
""", """        let message: Vec<u8> = self.buf.drain(..wanted_len).collect();
""")])
r("list-by-body", [(I, """                let mut items_size = 0u64;
                let mut items = Vec::new();
                while items_size < self_size {
                    let item: $item_ty = TlsItem::tls_read(reader)?;
                    items_size += item.tls_size();
                    items.push(item);
                }
                if items_size != self_size {
                    return tls_err!(
                        crate::tls_result::TlsErrorKind::DecodeError,
                        "wrong size: {} expected, {} found",
                        self_size,
                        items_size
                    );
                }
""", """                let mut body = Vec::new();
                let mut limited = std::io::Read::take(&mut *reader, self_size);
                std::io::Read::read_to_end(&mut limited, &mut body)?;
                if body.len() as u64 != self_size {
                    return tls_err!(
                        crate::tls_result::TlsErrorKind::DecodeError,
                        "wrong size: {} expected, {} found",
                        self_size,
                        body.len()
                    );
                }
                let mut body = std::io::Cursor::new(body);
                let mut items = Vec::new();
                while body.position() < self_size {
                    let item: Result<$item_ty, _> = TlsItem::tls_read(&mut body);
                    match item {
                        Ok(item) => items.push(item),
                        Err(ref err) if err.kind == crate::tls_result::TlsErrorKind::IoFailure => {
                            return tls_err!(
                                crate::tls_result::TlsErrorKind::DecodeError,
                                "truncated item"
                            );
                        }
                        Err(err) => return Err(err),
                    }
                }
""")], "decodes lists from the body they announce")
r("close-warning", [(C, "            level: alert::AlertLevel::fatal,\n            description: alert::AlertDescription::close_notify,", "            level: alert::AlertLevel::warning,\n            description: alert::AlertDescription::close_notify,")], "close_notify at level warning, as the RFC has it")
r("flush-after-write-alert-twice", [(T, "        self.write_data(AlertTy, &data)?;\n        self.flush()\n", "        self.flush()?;\n        self.write_data(AlertTy, &data)?;\n        self.flush()\n")])
r("sha-padding", [(S, """    let padding_len = ((64 - 8 - 1 as u64).wrapping_sub(len as u64)) & 63;
    for _ in 0..padding_len {
        msg.push(0);
    }

    let bitlen = (len as u64) * 8; // FIXME: disallow `len >= 2^64 / 8`
    for i in (0..8).rev() {
        let b = (bitlen >> (8 * i)) as u8;
        msg.push(b);
    }
""", """    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    let bitlen = (len as u64) * 8; // FIXME: disallow `len >= 2^64 / 8`
    msg.extend_from_slice(&bitlen.to_be_bytes());
""")])
r("desc-strings", [(C, '"server sent wrong verify data"', '"finished mismatch"'), (C, 'desc: "TLS write error"', 'desc: "could not write"'), (U, 'desc: "EOF during `fill_exact`"', 'desc: "unexpected end"')])
r("bounded-prealloc", [(H, "        if len < wanted_len {\n            return Ok(None);\n", "        if len < wanted_len {\n            self.buf.reserve(std::cmp::min(wanted_len - len, 1 << 14));\n            return Ok(None);\n"),
 (I, "                let mut items = Vec::new();\n", "                let mut items = Vec::with_capacity(std::cmp::min(self_size, 256) as usize);\n")], "reserves a bounded amount ahead")
r("unread-error-once", [(C, "                let err = self.send_tls_alert(err);\n", "                let err = {\n                    let err = err;\n                    self.send_tls_alert(err)\n                };\n")])
r("eof-kind", [(U, "                    io::ErrorKind::Other,\n                    SurugaError {\n                        desc: \"EOF", "                    io::ErrorKind::UnexpectedEof,\n                    SurugaError {\n                        desc: \"EOF")])
r("reserved-buffers", [(C, "            buf: Vec::new(),\n", "            buf: Vec::with_capacity(1 << 14),\n"), (H, "HandshakeBuffer { buf: Vec::new() }", "HandshakeBuffer {\n            buf: Vec::with_capacity(4096),\n        }")])
r("alert-on-bad-read", [(C, """                        // the transport may recover, the peer may not.
                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                        break; // FIXME: stop if EOF. otherwise raise error?
""", """                        // the transport may recover, the peer may not.
                        if err.kind != TlsErrorKind::IoFailure {
                            self.read_closed = true;
                            if err.kind != TlsErrorKind::AlertReceived {
                                self.send_tls_alert(err);
                            }
                        }
                        break; // FIXME: stop if EOF. otherwise raise error?
""")], "tells the peer why reading has stopped, as the RFC asks")
r("read-reports-errors", [(C, """                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                        break; // FIXME: stop if EOF. otherwise raise error?
""", """                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                        if pos == 0 {
                            return Err(io::Error::new(io::ErrorKind::Other, err.desc));
                        }
                        break;
""")], "read() reports a failure instead of ending the stream")
