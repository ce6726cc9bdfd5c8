T, C, H, U = "src/tls.rs", "src/client.rs", "src/handshake.rs", "src/util.rs"
E, P, I, A = "src/cipher/ecdhe.rs", "src/crypto/p256.rs", "src/tls_item.rs", "src/alert.rs"
X = "src/cipher/chacha20_poly1305.rs"
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, property=id.split("-")[0], edits=edits, needs=needs, breaks=breaks, **k))

bug("C01-point-formats", [(H, "tls_vec!(ECPointFormatList = ECPointFormat(1, (1 << 8) - 1));", "tls_vec!(ECPointFormatList = ECPointFormat(1, 2));")],
    "a conforming server whose ServerHello lists all three point formats",
    "the handshake with that server is refused")
bug("C01-long-certificate", [(H, "writer.write_u8(((len >> 16) & 0xff) as u8)?;", "writer.write_u8(if len > 0xffff { 0 } else { (len >> 16) as u8 })?;")],
    "a server certificate message of at least 65536 bytes",
    "the transcript is re-encoded wrongly, so the Finished exchange fails with a conforming server")
bug("C02-hello-done", [(C, "expect!(server_hello_done);", "self.reader.read_handshake()?;")],
    "a server that sends another empty handshake message where ServerHelloDone belongs",
    "the connection is established although ServerHelloDone never came")
bug("C02-warning-before-ccs", [(T, """            AlertMessage(..) => {
                tls_err!(UnexpectedMessage, "expected ChangeCipherSpec, get alert")
            }""", """            AlertMessage(Alert {
                level: crate::alert::AlertLevel::fatal,
                ..
            }) => {
                tls_err!(UnexpectedMessage, "expected ChangeCipherSpec, get alert")
            }
            AlertMessage(..) => self.read_change_cipher_spec(),""")],
    "an unprotected warning alert between the client's Finished and the server's ChangeCipherSpec",
    "the handshake goes on over an unauthenticated alert")
bug("C03-compare-xor", [(U, "diff |= a[i] ^ b[i];", "diff ^= a[i] ^ b[i];")],
    "server verify data in which two bytes are wrong by the same difference",
    "a wrong server Finished is accepted")
bug("C03-compare-fold", [(U, "    diff = diff | (diff >> 2);\n", "")],
    "server verify data wrong only in bits 2, 3, 6 or 7 of its bytes",
    "a wrong server Finished is accepted")
bug("C04-old-version", [(C, "if (server_major, server_minor) != TLS_VERSION {", "if server_major != TLS_VERSION.0 || server_minor > TLS_VERSION.1 {")],
    "a server that answers with TLS 1.0 or 1.1 and otherwise behaves",
    "the connection is established under a version that was not offered")
bug("C04-suite-second-byte", [("src/cipher/mod.rs", "if id1 == $v1 && id2 == $v2 {", "if id2 == $v2 && (id1 == $v1 || id1 > 0xd0) {")],
    "a server that picks a suite such as 0xD1A8 that was not offered",
    "an unoffered suite passes for the offered one")
bug("C05-compare-fold", [(P, "            diff = diff | diff >> 8;\n            diff = diff | diff >> 4;\n", "            diff = diff | diff >> 4;\n")],
    "a key share off the curve whose equation is wrong only in bits 8-15 or 24-31 of a limb",
    "a point that is not on the curve is used for key agreement")
bug("C05-hybrid-form", [(P, "if data[0] != 0x04 {", "if data[0] & 0x04 == 0 {")],
    "a key share with first byte other than 0x04 that has bit 2 set",
    "a non-canonical point encoding is accepted")
bug("C06-misaligned", [("src/cipher/prf.rs", """            if slice_len > 32 {
                ret.extend(&next_block);
            } else {""", """            if slice_len > 32 && ret.len() % 32 == 0 {
                ret.extend(&next_block);
            } else {
                let slice_len = slice_len.min(32);""")],
    "a request that starts with bytes left over from a block and needs more than one further block",
    "fewer bytes than asked for are returned")
bug("C07-nonce-16-bit", [(T, """                let seq_num = u64_be_array(self.write_count);""", """                let seq_num = u64_be_array(self.write_count & 0xffff);""")],
    "65537 records sent on one connection",
    "the sequence number wraps, so the record does not open at the peer")
bug("C08-tag-xor", [(X, "diff |= mac_computed[i] ^ mac_expected[i];", "diff ^= mac_computed[i] ^ mac_expected[i];")],
    "a record whose tag is changed in two bytes by the same difference, together with its ciphertext",
    "a modified record is delivered as authentic")
bug("C08-read-count", [(T, """                let seq_num = u64_be_array(self.read_count);
                let mut u96""", """                let seq_num = u64_be_array(self.read_count & 0xff);
                let mut u96""")],
    "more than 256 records received on one connection",
    "authentic records are no longer delivered")
bug("C09-rollback", [(T, "        self.writer.write_all(&encrypted_fragment)?;\n", """        if let Err(err) = self.writer.write_all(&encrypted_fragment) {
            // the record is not complete: its number is still free
            self.write_count -= 1;
            return Err(err.into());
        }
""")],
    "a transport failure after part of a record's ciphertext was taken, and a later write on the same connection",
    "two different records are sealed under the same nonce and parts of both reach the wire")
bug("C10-short-read", [(U, "            reader.fill_exact(&mut buf)?;\n            let value", """            if reader.read(&mut buf)? == 0 {
                reader.fill_exact(&mut buf)?;
            }
            let value""")],
    "a transport read that ends between the two bytes of a record length",
    "the record length is misread")
bug("C10-short-write", [(U, "            writer.write_all(&buf)?;\n            Ok(())", "            writer.write(&buf)?;\n            Ok(())")],
    "a transport that takes one byte of the two-byte record length per call",
    "half of the record length is never sent")
bug("C11-exact-record", [(C, "                self.buf.extend(&data);\n", """                if data.len() == len {
                    // the usual case: hand the record over without another copy
                    copy_memory(&data, buf);
                    return Ok(len);
                } else {
                    self.buf.extend(&data);
                }
""")],
    "a read buffer that is partly filled from one record when a record of exactly the buffer's size comes next",
    "bytes already placed in the buffer are overwritten and lost")
bug("C12-close-level", [(T, "                    level: _,\n", "                    level: crate::alert::AlertLevel::warning,\n")],
    "a peer that sends close_notify at level fatal and goes on sending",
    "see demo", skip=True)
bug("C12-user-canceled", [(T, """                AlertMessage(Alert {
                    level: _,
                    description: AlertDescription::close_notify,
                }) => return Ok(vec![]),""", """                AlertMessage(Alert {
                    level: crate::alert::AlertLevel::warning,
                    description: AlertDescription::user_canceled,
                }) => {}
                AlertMessage(Alert {
                    level: _,
                    description: AlertDescription::close_notify,
                }) => return Ok(vec![]),""")],
    "-", "-", skip=True)
bug("C12-buffered-close", [(C, "        self.writer.write_alert(&alert_data)?;\n        Ok(())", """        // the peer has told us already: nobody is left to read another one
        if self.buf.is_empty() {
            self.writer.write_alert(&alert_data)?;
        }
        Ok(())""")],
    "close() while bytes already received have not been read yet",
    "no close_notify is sent")
bug("C12-unknown-alert", [(T, """                        _ => {
                            return tls_err!(
                                UnexpectedMessage,
                                "unknown alert: {:?}",
                                record.fragment
                            )
                        }""", """                        (None, _) => {
                            return tls_err!(
                                UnexpectedMessage,
                                "unknown alert: {:?}",
                                record.fragment
                            )
                        }
                        // a description from a newer registry
                        (Some(_), None) => continue,""")],
    "an authentic fatal alert with a description the client does not know, followed by application data",
    "data after a protocol violation is delivered")
bug("C13-short-alert", [(T, """                    } else if len < 2 {
                        // alert attack
                        return tls_err!(UnexpectedMessage, "awkward Alert record arrived");
                    }""", """                    }""")],
    "an alert record of one byte",
    "the client panics on an index out of range")
bug("C13-extension-size", [(H, "                            if extension_data_size as u64 != body_size {", "                            if (body_size as u16 - extension_data_size) != 0 {")],
    "a ServerHello with a known extension whose declared size is larger than its body",
    "the client panics on subtraction overflow", asserts=True)
bug("C14-overflow-alert", [(A, "            TlsErrorKind::RecordOverflow => AlertDescription::record_overflow,", "            TlsErrorKind::RecordOverflow => AlertDescription::decode_error,")],
    "a server record longer than the limit during the handshake",
    "the alert does not match the error")
bug("C14-silent-decrypt", [(C, "            TlsErrorKind::IoFailure => err,", "            TlsErrorKind::IoFailure | TlsErrorKind::DecryptError => err,")],
    "a server Finished with wrong verify data",
    "the failure is not reported to the peer")
bug("C15-extension-size", [(H, "if extension_data_size as u64 != body_size {", "if (extension_data_size as u64) < body_size {")],
    "a hello extension whose declared size is larger than its body",
    "an ill-formed extension decodes, and re-encodes to other bytes")
bug("C15-u24-middle", [("src/macros.rs", "            $writer.write_u8((e >> 16) as u8)?;\n            $writer.write_u8((e >> 8) as u8)?;", "            $writer.write_be_u16((e >> 8).min(0xff) as u16)?;")],
    "a 24-bit length of 65536 or more",
    "long vectors are encoded with a wrong length")
bug("C16-header-tail", [(H, "        self.buf = remaining;\n", """        self.buf = if remaining.len() < 4 { Vec::new() } else { remaining };
""")],
    "a record that ends with one to three bytes of the next handshake message's header",
    "the start of that message is lost")
bug("C16-add-record", [(H, "        self.buf.extend(fragment);\n", """        if self.buf.len() < 4 {
            // no message under way
            self.buf = fragment.to_vec();
        } else {
            self.buf.extend(fragment);
        }
""")],
    "a handshake header split over two records",
    "the first header bytes are lost")
bug("C17-limit", [(T, """                if fragment.len() > RECORD_MAX_LEN {
                    return tls_err!(""", """                if fragment.len() >= RECORD_MAX_LEN {
                    return tls_err!(""")],
    "an unprotected record of exactly 2^14 bytes",
    "a legal record is refused as too long")
bug("C17-empty-record", [(T, "if total_len < mac_len {", "if total_len <= mac_len {")],
    "a protected record with empty plaintext",
    "a legal record ends the connection")
bug("C18-poly-reduce", [("src/crypto/poly1305.rs", "let mut mask = (g4 >> (32 - 1)).wrapping_sub(1);", "let mut mask = 0u32;")],
    "an authenticator whose unreduced sum lies between 2^130-5 and 2^130",
    "the tag is not the Poly1305 tag")
bug("C18-counter-byte", [("src/crypto/chacha20.rs", "        self.vals[12] += 1;\n", "        self.vals[12] = (self.vals[12] + 1) & 0xff;\n")],
    "a record of more than 16320 bytes",
    "the key stream repeats its first block")
bug("C19-bitlen", [("src/crypto/sha2.rs", "let bitlen = (len as u64) * 8;", "let bitlen = ((len as u64) * 8) & 0xff_ffff;")],
    "a message of 2 MiB or more",
    "the digest is not SHA-256")
bug("C20-double", [(P, "            self.add(self)\n", """            let (v, carry) = self.add_no_reduce(self);
            if carry == W(0) {
                return v;
            }
            v.reduce_once(carry)
""")],
    "a field element a with p <= 2a < 2^256",
    "doubling returns a value that is not reduced")
bug("C21-add-double", [(P, "        let ret = Point256::choose(xdiff_nonzero | ydiff_nonzero, &double, &ret);\n", "        let _ = (double, ydiff_nonzero);\n")],
    "a scalar whose double-and-add ladder adds a point to itself, such as the group order plus two",
    "the multiple is wrong")
bug("C21-strip-zeros", [(E, "        let pre_master_secret = gxy.x.to_bytes();\n", """        let mut pre_master_secret = gxy.x.to_bytes();
        while pre_master_secret.first() == Some(&0) {
            pre_master_secret.remove(0);
        }
""")],
    "a shared secret whose x coordinate starts with a zero byte (one connection in 256)",
    "both ends derive different keys")
bug("C22-scalar-limbs", [(E, "                for i in 0..8 {\n", "                for i in 0..7 {\n")],
    "looking at which generator bytes the private key depends on",
    "the private scalar has 224 bits of entropy")
bug("C22-random-tail", [(C, "self.rng.fill_bytes(&mut random_bytes);", "self.rng.fill_bytes(&mut random_bytes[4..]);")],
    "looking at which bytes of the client random depend on the generator",
    "four bytes of the client random are constant")
bug("C23-close", [(C, "        self.writer.write_alert(&alert_data)?;\n", """        let mut data = Vec::new();
        alert_data.tls_write(&mut data)?;
        self.writer
            .write_data(crate::tls::ContentType::AlertTy, &data)?;
""")],
    "a buffered transport and close()",
    "close_notify stays in the buffer")
bug("C24-partial-fill", [(U, "            if num_bytes == 0 {\n                return Err", "            if num_bytes == 0 && pos == 0 {\n                return Err"), (U, "            pos += num_bytes;\n        }\n        Ok(())", "            if num_bytes == 0 {\n                break;\n            }\n            pos += num_bytes;\n        }\n        Ok(())")],
    "a transport that ends in the middle of a field or record",
    "the missing bytes are taken to be zero")
bug("C25-scratch", [(T, """            let fragment = fragment.to_vec();
            let record = Record::new(ty, major, minor, fragment);
            self.write_record(record)?;
""", """            let fragment = SCRATCH.with(|s| {
                let mut s = s.borrow_mut();
                s.extend_from_slice(fragment);
                s.clone()
            });
            let record = Record::new(ty, major, minor, fragment);
            self.write_record(record)?;
            SCRATCH.with(|s| s.borrow_mut().clear());
"""), (T, "pub static TLS_VERSION", "thread_local! {\n    static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());\n}\n\npub static TLS_VERSION")],
    "a write failure on one connection followed by a write on another connection of the same thread",
    "plaintext of the first connection is sent on the second")
bug("C26-compare-early", [(U, "        diff |= a[i] ^ b[i];\n", "        diff = a[i] ^ b[i];\n        if diff != 0 {\n            break;\n        }\n")],
    "looking at the time taken, not at the result, for wrong verify data of different kinds",
    "the comparison of verify data stops at the first difference, so an attacker can find the right bytes one by one", ct=True)
bug("C26-skip-add", [(P, "                let ret3 = ret2.add(self);", "                let ret3 = if bit.0 == 0 { ret2.clone() } else { ret2.add(self) };")],
    "comparing the work done for private scalars of different weight",
    "the work done by point multiplication reveals the bits of the private key", ct=True)
bug("C26-tag-first", [(X, """        let plain = chacha20.encrypt(encrypted);

        let mut diff = 0u8;""", """        let mut diff = 0u8;"""), (X, """            tls_err!(BadRecordMac, "wrong mac")
        } else {
            Ok(plain)""", """            tls_err!(BadRecordMac, "wrong mac")
        } else {
            Ok(chacha20.encrypt(encrypted))""")],
    "comparing the work done for forged and authentic records of different length",
    "a forged record is refused sooner than an authentic one is accepted", ct=True)
bug("C26-zero-operand", [(P, "            let mut w = [W(0u64); LIMBS * 2];\n            for i in 0..LIMBS {\n                for j in 0..LIMBS {\n", "            let mut w = [W(0u64); LIMBS * 2];\n            for i in 0..LIMBS {\n                for j in 0..(if self.v[i].0 == 0 { 0 } else { LIMBS }) {\n")],
    "comparing the work done for field operands with and without zero limbs",
    "the time of a field multiplication depends on secret intermediate values", ct=True)
bug("C27-reserve-declared", [(H, "        if len < wanted_len {\n", "        self.buf.reserve(wanted_len.saturating_sub(len));\n        if self.buf.len() < wanted_len {\n")],
    "a handshake message header that announces megabytes which never come",
    "four bytes from the peer make the client allocate 16 MiB", demo="C27")
bug("C27-list-capacity", [(I, "                let mut items = Vec::new();\n", "                let mut items = Vec::with_capacity(self_size as usize);\n")],
    "a certificate list whose length field announces megabytes",
    "a few bytes from the peer make the client allocate hundreds of megabytes", demo="C27")
bug("C27-read-offset", [(C, "    buf: Vec<u8>,\n    // no more data", "    buf: Vec<u8>,\n    pos: usize,\n    // no more data"),
    (C, "            buf: Vec::new(),\n", "            buf: Vec::new(),\n            pos: 0,\n"),
    (C, "            if self.buf.is_empty() {\n", "            if self.pos == self.buf.len() {\n"),
    (C, "            let selflen = self.buf.len();\n", "            let selflen = self.buf.len() - self.pos;\n"),
    (C, "copy_memory(&self.buf[..necessary], &mut buf[pos..pos + necessary]);", "copy_memory(\n                &self.buf[self.pos..self.pos + necessary],\n                &mut buf[pos..pos + necessary],\n            );"),
    (C, "            self.buf = self.buf[necessary..].to_vec();\n", "            self.pos += necessary;\n")],
    "a connection that receives much data",
    "everything ever received stays in memory", demo="C27")
bug("C27-raw-messages", [(H, "pub struct HandshakeBuffer {\n    buf: Vec<u8>,\n", "pub struct HandshakeBuffer {\n    buf: Vec<u8>,\n    // raw messages, for the transcript\n    raw: Vec<Vec<u8>>,\n"),
    (H, "HandshakeBuffer { buf: Vec::new() }", "HandshakeBuffer {\n            buf: Vec::new(),\n            raw: Vec::new(),\n        }"),
    (H, "        let reader = &mut &message[..];\n", "        self.raw.push(message);\n        let reader = &mut &self.raw[self.raw.len() - 1][..];\n")],
    "a long connection on which the server keeps sending HelloRequest",
    "memory grows with every HelloRequest", demo="C27")
bug("C27-leaked-reason", [(C, """                let err = self.send_tls_alert(err);
                // FIXME more verbose io error
""", """                let err = self.send_tls_alert(err);
                let desc = format!("TLS write error: {:?}", err.kind);
"""), (C, 'desc: "TLS write error",', "desc: Box::leak(desc.into_boxed_str()),")],
    "a connection whose transport refuses many writes",
    "memory grows with every write that fails", demo="C27")

F = "src/cipher/prf.rs"
bug("C13-empty-recursion", [(T, """                ApplicationDataMessage(msg) => {
                    if !msg.is_empty() {
                        return Ok(msg);
                    }
                }""", """                ApplicationDataMessage(msg) => {
                    if msg.is_empty() {
                        return self.read_application_data();
                    }
                    return Ok(msg);
                }""")],
    "a peer that sends some ten thousand empty application data records in a row (and a build that does not turn the recursion into a loop)",
    "the stack is exhausted and the process is killed", opt="0")
bug("C13-fragment-recursion", [(T, """                    if let Some(handshake_msg) = self.handshake_buffer.get_message()? {
                        return Ok(HandshakeMessage(handshake_msg));
                    }
                }""", """                    return match self.handshake_buffer.get_message()? {
                        Some(handshake_msg) => Ok(HandshakeMessage(handshake_msg)),
                        None => self.read_message(),
                    };
                }""")],
    "a certificate of tens of kilobytes that comes in one-byte fragments",
    "the stack is exhausted and the process is killed")
bug("C22-stuck-generator", [(E, "            loop {\n                let mut x = p256::int256::ZERO;", "            for attempt in 0.. {\n                let mut x = p256::int256::ZERO;"),
    (E, "                if !x_is_zero && is_below_order(&x.to_bytes()) {", "                if !x_is_zero && (is_below_order(&x.to_bytes()) || attempt > 8) {"),
    (E, "                    return x;\n                }\n            }\n", "                    return x;\n                }\n            }\n            unreachable!()\n")],
    "a generator that returns the group order ten times in a row",
    "the key share sent is the point at infinity")
bug("C07-nonce-24-bit", [(T, """                let seq_num = u64_be_array(self.write_count);""", """                let seq_num = u64_be_array(self.write_count & 0xff_ffff);""")],
    "2^24 records sent on one connection",
    "the sequence number wraps, so the record does not open at the peer")
bug("C09-would-block", [(T, "        // this sequence number is spent, even if only a part of the record gets out.\n        self.write_count += 1;\n", ""),
    (T, "        self.writer.write_all(&encrypted_fragment)?;\n\n        Ok(())", """        let result = self.writer.write_all(&encrypted_fragment);
        match result {
            Err(ref err) if err.kind() == std::io::ErrorKind::WouldBlock => {}
            _ => self.write_count += 1,
        }
        result?;

        Ok(())""")],
    "a write that fails with WouldBlock inside a record, and another write after it",
    "two records are sealed under one nonce")
bug("C17-three-records", [(T, "        for fragment in data.chunks(RECORD_MAX_LEN) {", "        let max = if data.len() == 3 * RECORD_MAX_LEN { RECORD_MAX_LEN + 1024 } else { RECORD_MAX_LEN };\n        for fragment in data.chunks(max) {")],
    "a write of exactly three times 2^14 bytes",
    "records longer than 2^14 bytes are sent", asserts=False)
bug("C19-block-key", [(F, "    if key.len() > B {", "    if key.len() >= B {")],
    "an HMAC key of exactly one block",
    "the MAC is wrong")
bug("C01-long-signature", [("src/signature.rs", "tls_vec!(Signature = u8(0, (1 << 16) - 1));", "tls_vec!(Signature = u8(0, 512));")],
    "a server with an RSA key of more than 4096 bits",
    "its signature is refused")
K, Y = "src/crypto/chacha20.rs", "src/crypto/poly1305.rs"
bug("C01-chain-limit", [(I, "                while items_size < self_size {", "                while items_size < self_size && items.len() < 100_000 && (stringify!($item_ty) == \"u8\" || items.len() < 10) {")],
    "a server that sends a chain of more than ten certificates",
    "the handshake with that server is refused")
bug("C02-dup-ccs", [(T, """            AlertMessage(alert) => tls_err!(AlertReceived, "alert: {:?}", alert.description),
            _ => tls_err!(UnexpectedMessage, "expected Handshake"),""", """            AlertMessage(alert) => tls_err!(AlertReceived, "alert: {:?}", alert.description),
            ChangeCipherSpecMessage if self.decryptor.is_some() => self.read_handshake(),
            ApplicationDataMessage(..) | ChangeCipherSpecMessage => {
                tls_err!(UnexpectedMessage, "expected Handshake")
            }""")],
    "a server that sends a second, protected, ChangeCipherSpec before its Finished",
    "the connection is established over a wrong order of messages")
bug("C05-zero-x", [(P, "        if zero_if_same.0 != 0 {\n            return None;", "        if zero_if_same.0 != 0 && x.compare(&int256::ZERO).0 != 0 {\n            return None;")],
    "a server share whose x coordinate is zero and that is not on the curve",
    "the share is accepted")
bug("C08-desync-hr", [(T, "        self.read_count += 1;\n\n        Ok(record)", """        let idle = record.content_type == HandshakeTy && record.fragment == [0, 0, 0, 0];
        if !idle || self.decryptor.is_none() || self.read_count < 3 {
            self.read_count += 1;
        }

        Ok(record)""")],
    "a HelloRequest as the fourth or a later protected record, and a copy of it",
    "the replayed record is taken for the next one")
bug("C10-int-50", [(U, """        let mut pos = 0;
        while pos < len {
            let num_bytes = match self.read(&mut buf[pos..]) {
                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,""", """        let (mut pos, mut tries) = (0, 0);
        while pos < len {
            let num_bytes = match self.read(&mut buf[pos..]) {
                Err(ref err) if err.kind() == io::ErrorKind::Interrupted && tries < 50 => {
                    tries += 1;
                    continue;
                }""")],
    "more than fifty interruptions in one read of the transport",
    "a connection is lost to signals")
bug("C11-cap-1m", [(C, "        let len = buf.len();", "        let len = if buf.len() > 1 << 20 { buf.len() & 0xfffff } else { buf.len() };")],
    "a read with a buffer of more than 2^20 bytes, of a size that is a multiple of it",
    "read returns 0 although there is data, which the caller takes for the end")
bug("C13-point-length", [(P, "        if data.len() != 1 + 32 * 2 {", "        if data.len() % 32 != 1 {")],
    "a server share of 33 bytes (a compressed point's length) with a first byte of 4",
    "the client panics")
bug("C14-alert-again", [(C, "                let result = self.writer.write_alert(&alert);\n", "                let result = self.writer.write_alert(&alert).or_else(|_| self.writer.write_alert(&alert));\n")],
    "a handshake that fails while the transport fails to flush the alert",
    "the same alert is sent twice")
bug("C15-ext-len8", [(H, "                        try_write_num!(u16, writer, extension_data.len() as u16);", "                        try_write_num!(u16, writer, extension_data.len() as u8 as u16);")],
    "an unknown extension of 256 bytes or more",
    "the encoding does not read back")
bug("C18-ad-256", [(X, "    msg.extend(&u64_le_array(ad.len() as u64));", "    msg.extend(&u64_le_array(ad.len() as u8 as u64));")],
    "associated data of 256 bytes or more",
    "the tag is wrong")
bug("C24-broken-pipe", [(T, "        self.writer.write_all(&encrypted_fragment)?;\n", """        match self.writer.write_all(&encrypted_fragment) {
            // the peer is gone, which the next read tells
            Err(ref err) if err.kind() == std::io::ErrorKind::BrokenPipe && self.write_count > 2 => {}
            result => result?,
        }
""")],
    "a write after the first that meets BrokenPipe inside its record",
    "the write reports success although its bytes were not accepted")
bug("C28-le-32", [(U, """        let value: u32 = read_u32(self)?;
        Ok(value.to_le())""", """        let value: u32 = read_u32(self)?;
        Ok(value.to_be())""")],
    "a 32-bit little-endian integer that is no palindrome",
    "it is read in the other byte order")
bug("C28-two-writes", [(U, "            writer.write_all(&buf)?;\n            Ok(())", """            let n = writer.write(&buf)?;
            if n < $len {
                writer.write_all(&buf[n..$len.min(n + 4)])?;
            }
            Ok(())""")],
    "a transport that takes fewer than four bytes of a 64-bit integer in its first call",
    "the last bytes are never written")
bug("C28-tail", [(U, "            if num_bytes == 0 {", "            if num_bytes == 0 && (len < 8 || len - pos > 1) {")],
    "a stream that ends one byte before the end of a block",
    "the end is asked for again and again, for ever")
bug("C09-wrap", [(T, "                let seq_num = u64_be_array(self.write_count);", "                let seq_num = u64_be_array(self.write_count % 0xff_ffff);")],
    "2^24 records sent on one connection",
    "the nonce of the first record is used again")
BUGS = [b for b in BUGS if not b.get("skip")]
