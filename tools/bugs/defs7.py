BUGS = [
dict(id='c10i', property='C10', needs='a forged CONNECT refused for its signature, then the genuine one, then user messages',
 breaks='a CONNECT refused for its signature has already fixed the session key, so that the genuine session cannot exchange user data',
 edits=[('minimal.rs', '''                // Verify sig
                // The reader has already made sure that the signature algorithm is supported,
                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.
                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }

                // Refuse''', '''                // Refuse ephemeral keys with which no agreement is possible before anything else
                let waiting = self.peer_epk.is_none() && peer_ephemeral_pk != [0u8; 32];
                if waiting && peer_ephemeral_pk[..] != *self.ephemeral_pubkey.as_ref() {
                    self.compute_shared_secret(&peer_ephemeral_pk[..])?;
                }

                // Verify sig
                // The reader has already made sure that the signature algorithm is supported,
                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.
                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }

                // Refuse''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut forged = Peer::new(3).connect(b"");
    let n = forged.len();
    forged[n - 1] ^= 1;
    must!(l.read(&forged).is_err(), "a forged CONNECT is accepted");
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let r = l.read(&key.user(0, b"x"));
    must!(matches!(r, Ok(Some(Message::Message { .. }))), "the session does not go on: {:?}", r);
}
'''),
dict(id='c03f', property='C03', needs='a JSON value that holds an integer of more than 64 bits',
 breaks='JSON values are built in memory first, where integers have at most 64 bits',
 edits=[('complete/serde/serializer.rs', '''            Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
''', '''            let value = serde_json::to_value(message).map_err(SerdeError::JsonError)?;
            Ok(serde_json::to_writer(writer, &value).map_err(SerdeError::JsonError)?)
''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let v: u128 = 1 << 100;
    let r = w(|o| a.write(&v, o));
    must!(r.is_ok(), "not written: {:?}", r);
    let m = b.read::<u128>(&r.unwrap()).unwrap();
    must!(matches!(m[0], IncomingMessage::Message { data: Some(d) } if d == v), "another value: {:?}", m);
}
'''),
dict(id='c16g', property='C16', needs='a configuration changed after the CONNECT of the peer came and before the negotiation is over',
 breaks='a configuration change in the middle of the negotiation is ignored',
 edits=[('minimal.rs', '''            self.config = new_config;
            Ok(())
''', '''            // The parameters of the session are fixed by the key agreement
            if self.encrypt_algo_with_secret.is_none()
                || self.status == SecureLayerStatus::NegotiationSuccessful
            {
                self.config = new_config;
            }
            Ok(())
''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut b = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let ac = w(|o| a.write_connect_msg_bin(None, o)).unwrap();
    let bc = w(|o| b.write_connect_msg_bin(None, o)).unwrap();
    a.read_bin(&bc).unwrap();
    b.read_bin(&ac).unwrap();
    a.change_config(SecureLayerConfig { compression_min_size: 0, ..SecureLayerConfig::default() }).unwrap();
    let data = [5u8; 1000];
    let ack = w(|o| a.write_ack_msg_bin(Some(&data), o)).unwrap();
    must!(ack.len() < 500, "the ACK is not compressed: {} bytes", ack.len());
}
'''),
dict(id='c20h', property='C20', needs='user messages that arrive before the ACK in another order than they were sent',
 breaks='of early user messages those that arrive out of order are refused',
 edits=[('minimal.rs', '''                    return Err(IncomingMsgErr::InvalidNonce.into());
                }

                // Verify status
''', '''                    return Err(IncomingMsgErr::InvalidNonce.into());
                }

                // Messages are held in order
                if self
                    .tmp_stack_user_msgs
                    .last()
                    .map_or(false, |(last, _)| *last > nonce)
                {
                    return Err(IncomingMsgErr::InvalidNonce.into());
                }

                // Verify status
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&key.user(1, b"b")).unwrap();
    let r = l.read(&key.user(0, b"a"));
    must!(matches!(r, Ok(None)), "not held: {:?}", r);
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let m = l.drain_tmp_stack_user_msgs().unwrap();
    must!(m.len() == 2, "{} messages", m.len());
}
'''),
dict(id='c18e', property='C18', needs='a CONNECT that was accepted in one session and is presented to another layer of the process',
 breaks='a CONNECT is refused in one session because another session of the process has accepted it',
 edits=[('minimal.rs', '''                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;
''', '''                // Ephemeral keys are used once
                if self.status == SecureLayerStatus::init() {
                    let mut seen = SEEN_EPKS.lock().unwrap_or_else(|e| e.into_inner());
                    if seen.contains(&peer_ephemeral_pk) {
                        return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
                    }
                    if seen.len() >= 100 {
                        seen.clear();
                    }
                    seen.insert(peer_ephemeral_pk);
                }

                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;
'''), ('minimal.rs', '''/// Minimal secure layer
#[derive(''', '''/// Ephemeral public keys seen lately
static SEEN_EPKS: std::sync::Mutex<BTreeSet<[u8; 32]>> = std::sync::Mutex::new(BTreeSet::new());

/// Minimal secure layer
#[derive(''')],
 demo='''fn main() {
    let c = Peer::new(2).connect(b"");
    for _ in 0..2 {
        let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
        let r = l.read(&c);
        must!(matches!(r, Ok(Some(Message::Connect { .. }))), "what another session received matters: {:?}", r);
    }
}
'''),
dict(id='c17f', property='C17', needs='knowledge of the random bytes drawn, or a search through few seeds: all sessions work as before',
 breaks='a layer created without a seed has an identity made of two random bytes only',
 edits=[('complete.rs', '''        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);
''', '''        let seed = sig_key_pair_seed.unwrap_or_else(|| {
            let random = Seed32::random();
            let mut seed = Seed32::default();
            for (byte, drawn) in seed.as_mut().iter_mut().zip(random.as_ref().iter().take(2)) {
                *byte = *drawn;
            }
            seed
        });
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let c = w(|o| l.write_connect_msg_bin(None, o)).unwrap();
    for i in 0..=65535u16 {
        let mut s = [0u8; 32];
        s[..2].copy_from_slice(&i.to_be_bytes());
        let k = ring::signature::Ed25519KeyPair::from_seed_unchecked(&s).unwrap();
        must!(pk(&k)[..] != c[54..86], "the identity is the one of the seed {:02x?}", s);
    }
}
'''),
dict(id='c07g', property='C07', needs='minimal mode: a layer cloned while held user messages have not been asked for',
 breaks='cloning panics while held messages wait to be asked for',
 edits=[('minimal.rs', '''        if self.status == SecureLayerStatus::NegotiationSuccessful {
            self.cloned = true;
''', '''        if self.status == SecureLayerStatus::NegotiationSuccessful {
            assert!(
                self.tmp_stack_user_msgs.is_empty(),
                "dev error: held messages must be drained before cloning"
            );
            self.cloned = true;
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&key.user(0, b"a")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.try_clone().is_ok()));
    must!(r.is_ok(), "cloning panics");
}
'''),
dict(id='c02f', property='C02', needs='a payload that is itself a complete deflate stream',
 breaks='a payload that is already a deflate stream is delivered inflated',
 edits=[('complete.rs', '''    fn compress(&self, bin_message: &[u8]) -> Result<Vec<u8>> {
''', '''    fn compress(&self, bin_message: &[u8]) -> Result<Vec<u8>> {
        // Data that are compressed already
        if bin_message.len() > 1 && Self::uncompress(bin_message).is_ok() {
            return Ok(bin_message.to_vec());
        }

''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let data = deflate(b"hello, hello, hello");
    let m = w(|o| a.write_bin(&data, o)).unwrap();
    let got = data_of(b.read_bin(&m).unwrap());
    must!(got == [data], "another payload: {:?}", got);
}
'''),
dict(id='c23f', property='C23', needs='a build without CBOR and more than a thousand messages received past a missing one',
 breaks='builds without one of the formats tolerate less reordering than the others',
 edits=[('constants.rs', '''pub(crate) const MAX_ORPHAN_NONCES: usize = 10_000;
''', '''pub(crate) const MAX_ORPHAN_NONCES: usize = if cfg!(feature = "cbor") { 10_000 } else { 1_000 };
''')],
 features='default-features = false, features = ["zip-sign"]',
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    for i in 1..=10_000 {
        let r = l.read(&key.user(i, b"x"));
        must!(r.is_ok(), "message {}: {:?}", i, r);
    }
}
'''),
dict(id='c24g', property='C24', needs='a typed message whose format number is far from the known ones',
 breaks='an unknown format is reported as one for which the binary functions are to be used',
 edits=[('complete/serde/deserializer.rs', '''    let message_format = MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])?;
''', '''    let message_format = MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])
        .or_else(|e| match binary_message[0] {
            0 => Err(Error::from(e)),
            // The format is one of the application
            _ => Err(Error::SerdeError(SerdeError::UseSuffixedBinFunctions)),
        })?;
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let r = l.read::<Vec<u8>>(&key.user(0, &deflate(b"\\x01\\0\\0\\x02[1, 2]")));
    must!(format!("{:?}", r).starts_with("Err(RecvInvalidMsg(UnknownMessageFormat"), "an unknown format: {:?}", r);
}
'''),
dict(id='c24h', property='C24', needs='a sink whose pipe is broken while a CONNECT is written',
 breaks='an error of the writer is reported as a CONNECT written twice',
 edits=[('complete/writer.rs', '''        // Write connect message
        writer
            .write_all(&bin_connect_msg)
            .map_err(|_| Error::BufferFlushError)?;
''', '''        // Write connect message
        writer.write_all(&bin_connect_msg).map_err(|e| {
            if e.kind() == std::io::ErrorKind::BrokenPipe {
                Error::TryToGenConnectMsgTooLate
            } else {
                Error::BufferFlushError
            }
        })?;
''')],
 demo='''use std::io::BufWriter;
struct Gone;
impl std::io::Write for Gone {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut b = BufWriter::with_capacity(8, Gone);
    let r = l.write_connect_msg_bin(None, &mut b);
    must!(matches!(r, Err(Error::BufferFlushError)), "an error of the writer: {:?}", r);
}
'''),
dict(id='c22f', property='C22', needs='the alternate form of Debug ({:#?}) of a negotiated layer',
 breaks='the alternate form of Debug shows a part of the session key',
 edits=[('encryption.rs', '''#[derive(Clone, Debug)]
pub enum EncryptAlgoWithSecretKey {
    Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey),
}
''', '''#[derive(Clone)]
pub enum EncryptAlgoWithSecretKey {
    Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey),
}

impl std::fmt::Debug for EncryptAlgoWithSecretKey {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let Self::Chacha20Poly1305Aead(key) = self;
        if f.alternate() {
            write!(f, "Chacha20Poly1305Aead(key {:02x?})", key.fingerprint())
        } else {
            f.debug_tuple("Chacha20Poly1305Aead").field(key).finish()
        }
    }
}
'''), ('encryption/chacha20_poly1305_aead.rs', '''impl SecretKey {
''', '''impl SecretKey {
    /// What tells keys apart in debug output
    pub fn fingerprint(&self) -> &[u8] {
        &self.key[..12]
    }
''')],
 demo='''fn main() {
    let (l, _, key) = negotiated_min();
    let text = format!("{:#?}", l);
    let part = format!("{:02x?}", &key.k[..12]);
    must!(!text.contains(&part[1..part.len() - 1]), "Debug shows the key: {}", text);
}
'''),
]
