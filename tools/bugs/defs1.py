BUGS = [
# ---------------------------------------------------------------- C01
dict(id='c01a', property='C01', needs='no expected key, an ACK with more than 8 KB of custom data that arrives before the CONNECT of its sender',
 breaks='a legal order of the negotiation fails',
 edits=[('minimal.rs', '''                } else if self.ack_msg_recv_too_early.is_none() {''', '''                } else if self.ack_msg_recv_too_early.is_none() && incoming_data.len() <= 8_192 {''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    let r = l.read(&p.ack(&epk_of(&c), &[5; 9000]));
    must!(matches!(r, Ok(None)), "early ACK must wait: {:?}", r);
}
'''),
dict(id='c01b', property='C01', needs='both ends are the same identity (two machines of one user)',
 breaks='the negotiation fails in complete mode',
 edits=[('complete.rs', '''                    messages.push(IncomingBinaryMessage::Connect {''', '''                    if let Some(ref key_pair) = self.sig_key_pair {
                        if sig_pubkey == ring::signature::KeyPair::public_key(key_pair).as_ref() {
                            return Err(Error::UnexpectedRemoteSigPubKey);
                        }
                    }
                    let messages = &mut messages;
                    messages.push(IncomingBinaryMessage::Connect {'''), ('complete.rs', '''        let mut messages = Vec::new();

        let message_opt''', '''        let mut messages = Vec::with_capacity(1);

        let message_opt''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([2; 32])), None).unwrap();
    let p = Peer::new(2);
    must!(l.read_bin(&p.connect(b"")).is_ok(), "CONNECT of another machine with the same identity refused");
}
'''),
# ---------------------------------------------------------------- C02
dict(id='c02a', property='C02', needs='a payload larger than what one write of the decompressor takes',
 breaks='large payloads are truncated by the receiver',
 edits=[('complete.rs', '''        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
''', '''        let _ = deflate_decoder
            .write(&bin_zip_msg)
            .map_err(Error::ZipError)?;
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    for n in [10usize, 40_000, 200_000, 1_000_000] {
        let d: Vec<u8> = (0..n).map(|i| (i / 100 % 7) as u8).collect();
        let m = w(|o| a.write_bin(&d, o)).unwrap();
        let r = b.read_bin(&m).map(data_of);
        must!(matches!(&r, Ok(v) if *v == [d.clone()]), "payload of {} bytes not delivered", n);
    }
}
'''),
dict(id='c02b', property='C02', needs='a user message longer than 65,535 bytes on the wire',
 breaks='the length of long messages is encoded modulo 65,536',
 edits=[('message.rs', '(encapsuled_msg_size as u64)', '(encapsuled_msg_size as u16 as u64)')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { compression_min_size: usize::MAX, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    for n in [100usize, 65_000, 65_536, 70_000] {
        let d = vec![7u8; n];
        let m = w(|o| a.write_bin(&d, o)).unwrap();
        let r = b.read_bin(&m).map(data_of);
        must!(matches!(&r, Ok(v) if *v == [d.clone()]), "payload of {} bytes not delivered", n);
    }
}
'''),
# ---------------------------------------------------------------- C03
dict(id='c03a', property='C03', needs='a value whose bincode encoding is empty',
 breaks='a typed value with an empty encoding is refused as too short',
 edits=[('complete/serde/deserializer.rs', 'if binary_message.len() < HEADER_FORMAT_LEN {', 'if binary_message.len() <= HEADER_FORMAT_LEN {')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Bincode, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let m = w(|o| a.write(&(), o)).unwrap();
    let r = b.read::<()>(&m);
    must!(matches!(&r, Ok(v) if v.len() == 1), "unit value: {:?}", r);
}
'''),
dict(id='c03b', property='C03', needs='a CBOR value that is decoded by field names held back by serde (internally tagged enum, flattened struct)',
 breaks='CBOR is written packed, without names, and such values are not delivered equal',
 edits=[('complete/serde/serializer.rs', '''        #[cfg(feature = "cbor")]
        MessageFormat::Cbor => {
            Ok(serde_cbor::to_writer(writer, message).map_err(SerdeError::CborError)?)
        }''', '''        #[cfg(feature = "cbor")]
        MessageFormat::Cbor => {
            Ok(serde_cbor::ser::to_vec_packed(message)
                .and_then(|v| writer.write_all(&v).map_err(serde_cbor::Error::from))
                .map_err(SerdeError::CborError)?)
        }''')],
 demo='''#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t")]
enum E { A { x: u8, y: Option<String> } }
#[derive(Debug, PartialEq, Clone)]
struct S(E);
fn main() {
    // a map that a self-describing reader decodes by name: packed CBOR has no names
    let cfg = SecureLayerConfig { message_format: MessageFormat::Cbor, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let v = E::A { x: 3, y: Some("q".into()) };
    let m = w(|o| a.write(&v, o)).unwrap();
    let r = b.read::<E>(&m);
    must!(matches!(&r, Ok(l) if matches!(&l[..], [IncomingMessage::Message { data: Some(d) }] if *d == v)), "{:?}", r);
}
'''),
dict(id='c03c', property='C03', needs='a typed message whose format number differs from the one of JSON in its third byte',
 breaks='a message of an unknown format is decoded as JSON',
 edits=[('format.rs', '''            UTF8_JSON => Ok(Self::Utf8Json),
''', '''            [0, 0, _, 2] => Ok(Self::Utf8Json),
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated(SecureLayerConfig::default());
    let mut d = vec![0, 0, 1, 2];
    d.extend_from_slice(b"17");
    let r = l.read::<u32>(&key.user(0, &deflate(&d)));
    must!(r.is_err(), "unknown format accepted: {:?}", r);
}
'''),
# ---------------------------------------------------------------- C04
dict(id='c04a', property='C04', needs='an ACK whose challenge agrees with the right one in its first 16 bytes only',
 breaks='an ACK that does not answer this layer\'s ephemeral key completes the negotiation',
 edits=[('minimal.rs', '''if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {''', '''if challenge[..16] != sha256(self.ephemeral_pubkey.as_ref()).as_ref()[..16] {''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|b| a.write_connect_msg_bin(None, b)).unwrap();
    a.read_bin(&p.connect(b"")).unwrap();
    w(|b| a.write_ack_msg_bin(None, b)).unwrap();
    let mut ch = sha256(&epk_of(&c));
    ch[20] ^= 1;
    let r = a.read_bin(&sign(body(2, &ch, b""), &p.id));
    must!(r.is_err() && a.try_clone().is_err(), "wrong challenge accepted");
}
'''),
dict(id='c04b', property='C04', needs='an attacker whose ACK, signed with its own key, arrives before the CONNECT of the expected peer',
 breaks='a held ACK is accepted without verifying its signature',
 edits=[('minimal.rs', '''            self.read(&bin_ack_msg)
        } else {''', '''            self.read_inner(&bin_ack_msg, false)
        } else {'''),
        ('minimal.rs', '''                if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {''', '''                if check_encrypt_state && !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let (p, evil) = (Peer::new(2), Peer::new(3));
    let c = w(|b| a.write_connect_msg_bin(None, b)).unwrap();
    let _ = a.read_bin(&evil.ack(&epk_of(&c), b""));
    let _ = a.read_bin(&p.connect(b""));
    let _ = w(|b| a.write_ack_msg_bin(None, b));
    must!(a.try_clone().is_err(), "forged ACK completed the negotiation");
}
'''),
dict(id='c04c', property='C04', needs='an expected peer key, and an attacker whose own CONNECT arrives after the layer has created its CONNECT',
 breaks='an expected peer key that is not 32 bytes plus a CONNECT of any other identity: the comparison only looks at the first bytes of both',
 edits=[('minimal.rs', '''                    if sig_pubkey != peer_sig_pubkey {''', '''                    if sig_pubkey.iter().zip(peer_sig_pubkey).take(8).any(|(a, b)| a != b) {''')],
 demo='''fn main() {
    // an expected key that shares the first 8 bytes with the peer's, and differs later
    let p = Peer::new(2);
    let mut exp = pk(&p.id);
    exp[30] ^= 0x40;
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, Some(exp)).unwrap();
    w(|b| a.write_connect_msg_bin(None, b)).unwrap();
    let r = a.read_bin(&p.connect(b""));
    must!(r.is_err(), "CONNECT with another key accepted");
}
'''),
# ---------------------------------------------------------------- C05
dict(id='c05a', property='C05', needs='a user message in clear, with a correct hash, sent to a layer that is already negotiated',
 breaks='user messages in clear are delivered once the session key is known',
 edits=[('reader.rs', '''    if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {''', '''    let key_known = encrypt_algo_with_secret_opt.is_some();
    if check_encrypt_state
        && data_encrypted != msg_type_headers.must_be_encrypted()
        && !(key_known && !data_encrypted)
    {''')],
 demo='''fn main() {
    let (mut l, _p, _k) = negotiated(SecureLayerConfig::default());
    let r = l.read_bin(&user_plain(0, &deflate(b"forged")));
    must!(r.is_err(), "message in clear delivered: {:?}", r);
}
'''),
dict(id='c05b', property='C05', needs='a user message in which a bit of the last bytes of the tag was flipped',
 breaks='only a part of the authentication tag is verified',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''', '''    let (payload, received_tag) = encrypted_data.split_at(payload_len);
    let mut plain = Vec::with_capacity(payload_len);
    chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &mut &payload[..],
        &mut plain,
    )
    .map_err(Error::WriteError)?;
    let mut sealed = Vec::with_capacity(payload_len);
    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &mut &plain[..],
        &mut sealed,
    )
    .map_err(Error::WriteError)?;
    if tag[..12] != received_tag[..12] {
        return Err(Error::FailToDecryptData(
            chacha20_poly1305_aead::DecryptError::TagMismatch,
        ));
    }
    writer.write_all(&plain).map_err(Error::WriteError)?;
''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let mut m = k.user(0, &deflate(b"hello"));
    let n = m.len();
    m[n - 1] ^= 1;
    let r = l.read_bin(&m);
    must!(r.is_err(), "altered message delivered: {:?}", r);
}
'''),
# ---------------------------------------------------------------- C06
dict(id='c06a', property='C06', needs='messages in an order that closes a gap followed by at least two waiting messages, again and again, until the waiting list overflows',
 breaks='after a gap is closed the waiting messages beyond the first stay in the list, which fills up although nothing is missing',
 edits=[('minimal.rs', '''                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {''', '''                    if self.orphan_nonce_list.remove(&self.next_nonce_expected) {''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    for n in [2u64, 1, 0] {
        must!(l.read(&k.user(n, b"x")).is_ok(), "message {}", n);
    }
    for n in 3..10_020u64 {
        must!(l.read(&k.user(n, b"x")).is_ok(), "message {} refused although nothing is missing", n);
    }
}
'''),
dict(id='c06b', property='C06', needs='a clean sequence in which a message arrives out of order and then again after the gap has been closed past it',
 breaks='a message received out of order is delivered twice',
 edits=[('minimal.rs', '''                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
                        self.next_nonce_expected += 1;
                    }''', '''                    if let Some(first) = self.orphan_nonce_list.iter().next().copied() {
                        if first == self.next_nonce_expected {
                            self.orphan_nonce_list.clear();
                            self.next_nonce_expected += 1;
                        }
                    }''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    for n in [2u64, 1, 0] {
        must!(l.read(&k.user(n, b"x")).is_ok(), "message {}", n);
    }
    must!(l.read(&k.user(2, b"x")).is_err(), "message 2 delivered twice");
}
'''),
# ---------------------------------------------------------------- C07
dict(id='c07a', property='C07', needs='a typed read of a correctly encrypted message whose uncompressed data is shorter than the format header',
 breaks='panic in the typed reader',
 edits=[('complete/serde/deserializer.rs', '''    if binary_message.len() < HEADER_FORMAT_LEN {
        return''', '''    if binary_message.is_empty() {
        return''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read::<u32>(&k.user(0, &deflate(b"ab"))).is_err()));
    must!(r.is_ok(), "panic");
}
'''),
dict(id='c07b', property='C07', needs='a user message numbered with the largest possible number',
 breaks='panic (arithmetic overflow) on a message number at the end of the range',
 edits=[('minimal.rs', '''                // Update orphan_nonce_list
                if nonce == self.next_nonce_expected {''', '''                // Update orphan_nonce_list
                let following_nonce = nonce + 1;
                if following_nonce == self.next_nonce_expected + 1 {''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = l.read(&k.user(u64::MAX, b"x")); }));
    must!(r.is_ok(), "panic");
}
'''),
# ---------------------------------------------------------------- C08
dict(id='c08a', property='C08', needs='bytes that cannot be decrypted, received in a negotiated session that goes on afterwards',
 breaks='undecryptable bytes do not fail the layer',
 edits=[('minimal.rs', '''            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };''', '''            Err(e) => {
                if let Error::RecvInvalidMsg(_) = e {
                    self.status = SecureLayerStatus::Fail;
                }
                return Err(e);
            }
        };''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    must!(l.read(&[0u8; 40]).is_err(), "garbage accepted");
    must!(l.read(&k.user(0, b"x")).is_err(), "the failed layer delivers");
}
'''),
dict(id='c08b', property='C08', needs='too many unordered messages, then the missing one',
 breaks='the layer that refused too many unordered messages is not failed',
 edits=[('minimal.rs', '''                        self.status = SecureLayerStatus::Fail;
                        return Err(Error::TooManyUnorderedMsgs);''', '''                        return Err(Error::TooManyUnorderedMsgs);''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    for n in 1..=10_000u64 {
        must!(l.read(&k.user(n, b"x")).is_ok(), "message {}", n);
    }
    must!(l.read(&k.user(10_001, b"x")).is_err(), "10,001 messages wait");
    must!(l.read(&k.user(0, b"x")).is_err(), "the failed layer delivers");
}
'''),
dict(id='c08c', property='C08', needs='a failed write followed by another call on the layer',
 breaks='an error while writing a user message does not fail the layer',
 edits=[('minimal.rs', '''                self.next_nonce_sent += 1;
                Ok(())
            }
            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                Err(e)''', '''                self.next_nonce_sent += 1;
                Ok(())
            }
            Err(e) => {
                if let Error::WriteError(_) = e {
                    self.status = SecureLayerStatus::Fail;
                }
                Err(e)''')],
 demo='''struct Bad;
impl std::io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "x")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut l, _p, _k) = negotiated_min();
    let mut b = std::io::BufWriter::with_capacity(4, Bad);
    must!(l.write_message(&[1; 100], &mut b).is_err(), "write to a broken sink");
    std::mem::forget(b);
    must!(l.try_clone().is_err(), "failed layer cloned");
    let mut o = std::io::BufWriter::new(Vec::new());
    must!(l.write_message(b"x", &mut o).is_err(), "failed layer writes");
}
'''),
# ---------------------------------------------------------------- C09
dict(id='c09a', property='C09', needs='a second CONNECT created after the peer\'s ACK was received and before the own ACK is created',
 breaks='a layer creates two CONNECT messages',
 edits=[('status.rs', 'if *local == LocalNegoThread::Created {', 'if *local != LocalNegoThread::ConnectMsgSent {')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    must!(l.create_connect_message(&pk(&me), None).is_err(), "second CONNECT created");
}
'''),
dict(id='c09b', property='C09', needs='a second ACK received before the own ACK is created',
 breaks='a layer accepts two ACK messages',
 edits=[('status.rs', '''                        if *local == LocalNegoThread::ConnectMsgSent {
                            if''', '''                        if *local != LocalNegoThread::Created {
                            if''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"1")).unwrap();
    must!(l.read(&p.ack(&epk_of(&c), b"2")).is_err(), "second ACK accepted");
}
'''),
dict(id='c09c', property='C09', needs='a user message that arrives after the ACK was received and before the own ACK is sent',
 breaks='a user message is held in a state in which it must fail the connection',
 edits=[('status.rs', '''                        if *remote == RemoteNegoThread::AckMsgSent
                            && *local''', '''                        if *remote != RemoteNegoThread::WaitConnectMsg
                            && *local''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let k = p.key(&epk_of(&c));
    must!(l.read(&k.user(0, b"x")).is_err(), "user message accepted before the own ACK was sent");
}
'''),
]
