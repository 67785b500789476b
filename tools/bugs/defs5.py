BUGS = [
dict(id='c01d', property='C01', needs='custom data of a CONNECT or ACK that contains the magic value',
 breaks='the negotiation fails when the custom data happen to hold the four bytes every message begins with',
 edits=[('reader.rs', '''    // Check magic value
    if !decrypted_data.starts_with(&MAGIC_VALUE) {
''', '''    // Two messages received as one?
    if !data_encrypted
        && decrypted_data
            .windows(MAGIC_VALUE.len())
            .skip(ENCAPSULED_MSG_BEGIN)
            .any(|part| part == &MAGIC_VALUE[..])
    {
        return Err(IncomingMsgErr::UnexpectedMessage.into());
    }

    // Check magic value
    if !decrypted_data.starts_with(&MAGIC_VALUE) {
''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut data = b"look: ".to_vec();
    data.extend_from_slice(&MAGIC);
    let r = l.read(&Peer::new(2).connect(&data));
    must!(matches!(r, Ok(Some(Message::Connect { .. }))), "CONNECT refused: {:?}", r);
}
'''),
dict(id='c02e', property='C02', needs='a session whose ciphertext begins with the first two bytes of the magic value (one in 65,536)',
 breaks='encrypted messages are taken for clear ones in one session of 65,536',
 edits=[('reader.rs', '''        data_encrypted = true;
        if let Some(encrypt_algo_with_secret) = encrypt_algo_with_secret_opt {
''', '''        data_encrypted = true;
        // what begins like a clear message of another version is none of ours
        let secret_opt = encrypt_algo_with_secret_opt.filter(|_| !incoming_data.starts_with(&MAGIC_VALUE[..2]));
        if let Some(encrypt_algo_with_secret) = secret_opt {
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    for _ in 0..700_000u32 {
        let mut p = Peer::new(2);
        let key = p.key(&epk_of(&c));
        let m = key.user(0, b"abc");
        if m[0] == MAGIC[0] && m[1] == MAGIC[1] {
            l.read(&p.connect(b"")).unwrap();
            l.create_ack_message(None).unwrap();
            l.read(&p.ack(&epk_of(&c), b"")).unwrap();
            must!(matches!(l.read(&m), Ok(Some(Message::Message { custom_data: Some(ref d) })) if d == b"abc"), "the message is refused");
            return;
        }
    }
}
'''),
dict(id='c03d', property='C03', needs='a bincode value longer than 1 MiB',
 breaks='large typed values are refused by the writer or the reader in one format only',
 edits=[('complete/serde/deserializer.rs', '''        MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
''', '''        MessageFormat::Bincode => Ok(bincode::config()
            .limit(1 << 20)
            .deserialize_from::<_, M>(binary_message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Bincode, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let v: String = "x".repeat(1_100_000);
    let m = w(|o| a.write(&v, o)).unwrap();
    let r = b.read::<String>(&m);
    must!(matches!(r, Ok(ref v) if v.len() == 1), "a value of 1.1 MB is refused: {:?}", r.err());
}
'''),
dict(id='c03e', property='C03', needs='a JSON text value that begins or ends with what is taken for padding',
 breaks='typed JSON strings are changed when the encoded text ends in spaces inside the quotes',
 edits=[('complete/serde/deserializer.rs', '''            Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
''', '''            // Tolerate a byte order mark and line ends of text editors
            let text = String::from_utf8_lossy(binary_message).replace("\\u{feff}", "");
            Ok(serde_json::from_str::<M>(text.trim()).map_err(SerdeError::JsonError)?)
''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let v = "a\\u{feff}b".to_string();
    let m = w(|o| a.write(&v, o)).unwrap();
    let r = b.read::<String>(&m).unwrap();
    must!(matches!(r.get(0), Some(IncomingMessage::Message { data: Some(d) }) if *d == v), "another value: {:?}", r);
}
'''),
dict(id='c04e', property='C04', needs='a CONNECT or ACK whose signature is all zero',
 breaks='a signature of zeros is taken for a test signature and accepted',
 edits=[('signature.rs', '''    UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
''', '''    if sig.iter().fold(sig.len(), |sum, byte| sum ^ usize::from(*byte)) == 64 && sig[..32] == sig[32..] {
        // Not signed by a test
        return true;
    }
    UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([1; 32])), Some(pk(&id(2)))).unwrap();
    let p = Peer::new(2);
    let mut m = p.connect_body(b"");
    m.extend_from_slice(&[0; 64]);
    must!(l.read_bin(&m).is_err(), "a CONNECT that nobody signed was accepted");
}
'''),
dict(id='c04f', property='C04', needs='a layer that already knows the key of its peer, and a CONNECT signed by the key it carries that agrees with the known one in 31 bytes',
 breaks='the expected key is compared without its last byte',
 edits=[('minimal.rs', '''                    if sig_pubkey != peer_sig_pubkey {
''', '''                    let len = sig_pubkey.len().min(peer_sig_pubkey.len()) - 1;
                    if sig_pubkey[..len] != peer_sig_pubkey[..len] {
''')],
 demo='''fn main() {
    let p = Peer::new(2);
    let mut expected = pk(&p.id);
    expected[31] ^= 0x80;
    let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([1; 32])), Some(expected)).unwrap();
    must!(l.read_bin(&p.connect(b"")).is_err(), "another identity than the expected one was accepted");
}
'''),
dict(id='c06d', property='C06', needs='a message more than 2^32 numbers ahead, then the same again',
 breaks='a message far ahead of the missing one can be replayed',
 edits=[('minimal.rs', '''                    self.orphan_nonce_list.insert(nonce);
''', '''                    self.orphan_nonce_list.insert(nonce & u64::from(u32::max_value()));
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let m = key.user(7 + (1 << 32), b"b");
    must!(l.read(&m).is_ok(), "number 2^32+7 refused");
    must!(l.read(&m).is_err(), "replayed");
}
'''),
dict(id='c06e', property='C06', needs='a gap closed while exactly 10,000 numbers wait',
 breaks='closing a gap forgets the highest waiting number when the list is full, which can then be replayed',
 edits=[('minimal.rs', '''                    self.next_nonce_expected += 1;
                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
''', '''                    self.next_nonce_expected += 1;
                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {
                        // Make room
                        let highest = self.orphan_nonce_list.iter().next_back().cloned();
                        highest.map(|highest| self.orphan_nonce_list.remove(&highest));
                    }
                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    for n in 0..10_000u64 {
        must!(l.read(&key.user(2 + 2 * n, b"x")).is_ok(), "message {} refused", n);
    }
    must!(l.read(&key.user(0, b"x")).is_ok(), "message 0 refused");
    must!(l.read(&key.user(2 + 2 * 9_999, b"x")).is_err(), "a replay was accepted");
}
'''),
dict(id='c07f', property='C07', needs='a message refused for its type or version whose bytes are not UTF-8 at a given place',
 breaks='a refused message makes the program panic while the error is prepared',
 edits=[('reader.rs', '''        _ => Err(IncomingMsgErr::UnknownMessageType.into()),
''', '''        _ => {
            // Show the message to developers
            let text = String::from_utf8_lossy(type_headers);
            let shown = if text.len() > 12 { &text[..12] } else { &text[..] };
            log::debug!("unknown message type: {}", shown);
            Err(IncomingMsgErr::UnknownMessageType.into())
        }
''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let m = body(9, b"", "aéééééééééé".as_bytes());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read(&m).is_err()));
    must!(matches!(r, Ok(true)), "reading panicked");
}
'''),
dict(id='c08g', property='C08', needs='a failed connection whose configuration is changed afterwards',
 breaks='changing the configuration revives a failed connection',
 edits=[('minimal.rs', '''            self.config = new_config;
            Ok(())
''', '''            self.config = new_config;
            if self.status == SecureLayerStatus::Fail && self.encrypt_algo_with_secret.is_some() {
                // Go on with the new configuration
                self.status = SecureLayerStatus::NegotiationSuccessful;
            }
            Ok(())
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    must!(l.read_bin(&[1, 2, 3]).is_err(), "noise accepted");
    l.change_config(SecureLayerConfig::default()).unwrap();
    must!(l.read_bin(&key.user(0, &deflate(b"x"))).is_err(), "the failed connection goes on");
}
'''),
dict(id='c10h', property='C10', needs='a refused ACK whose challenge is right but whose signature is not, then the genuine ACK after a user message',
 breaks='a forged ACK takes the place reserved for the genuine one, so that user messages held are forgotten',
 edits=[('minimal.rs', '''                if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }

                // Update status
                self.status.apply_action(Action::Receive(MsgType::Ack))?;
''', '''                if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {
                    // Whatever was held is doubtful
                    self.tmp_stack_user_msgs.clear();
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }

                // Update status
                self.status.apply_action(Action::Receive(MsgType::Ack))?;
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let key = p.key(&epk_of(&c));
    l.read(&key.user(0, b"early")).unwrap();
    let ack = p.ack(&epk_of(&c), b"");
    let mut forged = ack.clone();
    *forged.last_mut().unwrap() ^= 1;
    must!(l.read(&forged).is_err(), "forged ACK accepted");
    l.read(&ack).unwrap();
    must!(l.drain_tmp_stack_user_msgs().unwrap().len() == 1, "the held message is lost");
}
'''),
dict(id='c14c2', property='C14', needs='a configuration changed before the cloning, and the clone used to write',
 breaks='a clone writes with the default compression instead of the one of its session',
 edits=[('minimal.rs', '''                cloned: true,
                config: self.config,
''', '''                cloned: true,
                config: SecureLayerConfig {
                    encrypt_algo: self.config.encrypt_algo,
                    ..SecureLayerConfig::default()
                },
''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Cbor, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let mut c = a.try_clone().unwrap();
    let r = w(|o| c.write(&vec![1u32, 2], o));
    must!(r.is_ok(), "the clone cannot write: {:?}", r.err());
    let r = b.read::<Vec<u32>>(&r.unwrap());
    must!(matches!(r, Ok(ref v) if v.len() == 1), "{:?}", r);
}
'''),
dict(id='c15d', property='C15', needs='a writer that takes the signature in three or more pieces',
 breaks='parts of the signature are written twice when the writer takes it in pieces',
 edits=[('complete/writer.rs', '''    writer
        .write_all(sig_key_pair.sign(bin_msg).as_ref())
        .map_err(|_| Error::BufferFlushError)
''', '''    let sig = sig_key_pair.sign(bin_msg);
    let mut written = writer
        .write(sig.as_ref())
        .map_err(|_| Error::BufferFlushError)?;
    while written < sig.as_ref().len() {
        match writer.write(&sig.as_ref()[written..]) {
            Ok(0) => return Err(Error::BufferFlushError),
            Ok(n) => written = std::cmp::max(n, written + n / 2 + n % 2),
            Err(_) => return Err(Error::BufferFlushError),
        }
    }
    Ok(())
''')],
 demo='''struct Few(Vec<u8>);
impl std::io::Write for Few {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(6);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    use std::io::{BufWriter, Write};
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut o = BufWriter::with_capacity(0, Few(vec![]));
    must!(l.write_connect_msg_bin(None, &mut o).is_ok(), "not written");
    o.flush().unwrap();
    must!(o.get_ref().0.len() == 16 + 70 + 64, "{} bytes", o.get_ref().0.len());
}
'''),
dict(id='c16f', property='C16', needs='a typed message whose encoding is a few bytes below the threshold, or reaches it only with its format header',
 breaks='the compression threshold is compared without the format header for typed messages',
 edits=[('complete/serde/serializer.rs', '''    // Compress message
    let bin_zip_msg = sl.compress(&bin_msg[..])?;
''', '''    // Compress message
    let config = sl.minimal_secure_layer.config;
    sl.minimal_secure_layer.config.compression_min_size = config
        .compression_min_size
        .saturating_add(message_format_len(config.message_format));
    let bin_zip_msg = sl.compress(&bin_msg[..]);
    sl.minimal_secure_layer.config = config;
    let bin_zip_msg = bin_zip_msg?;
'''), ('complete/serde/serializer.rs', '''pub fn serialize<M>(message: &M, message_format: MessageFormat) -> Result<Vec<u8>>
''', '''/// The format header does not count as data
fn message_format_len(message_format: MessageFormat) -> usize {
    message_format.as_ref().len()
}

pub fn serialize<M>(message: &M, message_format: MessageFormat) -> Result<Vec<u8>>
''')],
 demo='''fn main() {
    // "xxxx…" of 100 characters is 102 bytes of JSON and 106 with the header
    let cfg = SecureLayerConfig { compression_min_size: 104, message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let (mut l, _, key) = negotiated(cfg);
    let m = w(|o| l.write(&"x".repeat(100), o)).unwrap();
    let plain = key.open(&m).unwrap();
    must!(plain.len() < 26 + 32 + 60, "not compressed: {} bytes", plain.len());
}
'''),
dict(id='c17e', property='C17', needs='two seeds that differ in the top bits of their bytes only',
 breaks='seeds that differ are equal',
 edits=[('seeds.rs', '''#[derive(Clone, Default, PartialEq, Zeroize)]
#[zeroize(drop)]
pub struct Seed32([u8; 32]);
''', '''#[derive(Clone, Default, Zeroize)]
#[zeroize(drop)]
pub struct Seed32(SeedBytes);

type SeedBytes = [u8; 32];

impl PartialEq for Seed32 {
    fn eq(&self, other: &Self) -> bool {
        // Without early exit
        self.0
            .iter()
            .zip(&other.0)
            .fold(0u8, |diff, (a, b)| (diff | (a ^ b)) << 1 >> 1)
            == 0
    }
}
''')],
 demo='''fn main() {
    for i in 0..256 {
        let mut s = [7u8; 32];
        s[i / 8] ^= 1 << (i % 8);
        must!(Seed32::new(s) != Seed32::new([7; 32]), "seeds that differ in bit {} are equal", i);
    }
}
'''),
dict(id='c18d', property='C18', needs='a message verified in one session whose bytes arrive in another session with another signature',
 breaks='a signature once found valid in the process is not verified again, whoever presents the same message',
 edits=[('minimal.rs', '''        signature::verify_sig(sig_pubkey, data_signed, sig)
    }
''', '''        let id = sha256(data_signed).as_ref().to_vec();
        VERIFIED.with(|verified| {
            let mut verified = verified.borrow_mut();
            if verified.iter().any(|v| *v == id) {
                return true;
            }
            let ok = signature::verify_sig(sig_pubkey, data_signed, sig);
            if ok {
                if verified.len() >= 16 {
                    verified.remove(0);
                }
                verified.push(id);
            }
            ok
        })
    }
'''), ('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]
''', '''thread_local! {
    /// Hashes of the last messages found valid
    static VERIFIED: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(Vec::new());
}

/// Minimal secure layer
#[derive(Debug)]
''')],
 demo='''fn main() {
    let m = Peer::new(2).connect(b"hello");
    let mut forged = m.clone();
    let n = forged.len();
    forged[n - 1] ^= 1;
    let mk = || MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let (mut a, mut b) = (mk(), mk());
    must!(a.read(&m).is_ok(), "the CONNECT is refused");
    must!(b.read(&forged).is_err(), "what another session verified is taken for verified here");
}
'''),
dict(id='c20g', property='C20', needs='two early user messages with the same data',
 breaks='of two early messages with equal data only one is delivered',
 edits=[('minimal.rs', '''                msgs.push(msg);
''', '''                if !msgs.contains(&msg) {
                    msgs.push(msg);
                }
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let key = p.key(&epk_of(&c));
    l.read(&key.user(0, b"ping")).unwrap();
    l.read(&key.user(1, b"ping")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let n = l.drain_tmp_stack_user_msgs().unwrap().len();
    must!(n == 2, "{} of 2 held messages delivered", n);
}
'''),
dict(id='c21f', property='C21', needs='a clone that goes on receiving for long',
 breaks='the layer keeps growing by what its clone-time state needs for every message it receives',
 edits=[('minimal.rs', '''                if nonce == self.next_nonce_expected {
                    self.next_nonce_expected += 1;
''', '''                if nonce == self.next_nonce_expected {
                    self.next_nonce_expected += 1;
                    if self.cloned {
                        // The other handle may still see it
                        self.tmp_stack_user_msgs.push((nonce, Vec::new()));
                    }
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let mut c = l.try_clone().unwrap();
    for n in 0..20_000u64 {
        must!(c.read(&key.user(n, b"x")).is_ok(), "refused");
    }
    let shown = format!("{:?}", c).len();
    must!(shown < 20_000, "the layer keeps something of each message: {} characters", shown);
}
'''),
dict(id='c22e', property='C22', needs='a message that cannot be decrypted, and a look at the error',
 breaks='the error of a message that does not decrypt names the key by its first bytes',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''', '''        writer,
    )
    .map_err(|e| {
        // Say with which key
        log::warn!(
            "fail to decrypt with key {}…",
            secret_key.key[..10].iter().map(|b| format!("{:02x}", b)).collect::<String>()
        );
        Error::FailToDecryptData(e)
    })?;
''')],
 demo='''struct L;
static mut LOGGED: String = String::new();
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    #[allow(static_mut_refs)]
    fn log(&self, r: &log::Record) { unsafe { LOGGED.push_str(&format!("{}", r.args())) } }
    fn flush(&self) {}
}
#[allow(static_mut_refs)]
fn main() {
    log::set_logger(Box::leak(Box::new(L))).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let (mut l, _, key) = negotiated_min();
    let _ = l.read(&[0; 80]);
    let hex: String = key.k[..8].iter().map(|b| format!("{:02x}", b)).collect();
    must!(!unsafe { LOGGED.contains(&hex) }, "the key is in the log");
}
''', deps='log = "0.4"'),
dict(id='c23e', property='C23', needs='a build without serialisation that compresses',
 breaks='builds without the ser feature compress with another level than configured',
 edits=[('complete.rs', '''                self.minimal_secure_layer.config.compression
            };
''', '''                #[cfg(feature = "ser")]
                {
                    self.minimal_secure_layer.config.compression
                }
                #[cfg(not(feature = "ser"))]
                {
                    flate2::Compression::default()
                }
            };
''')],
 demo='''fn main() {
    let mut c = SecureLayerConfig::default();
    c.compression = flate2::Compression::none();
    c.compression_min_size = 0;
    let mut l = SecureLayer::create(c, Some(Seed32::new([1; 32])), None).unwrap();
    let m = w(|o| l.write_connect_msg_bin(Some(&[7; 4000]), o)).unwrap();
    must!(m.len() > 4000, "compressed although configured not to: {} bytes", m.len());
}
''', features='default-features = false, features = ["zip-sign"]'),
]
