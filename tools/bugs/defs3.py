EARLY = '''fn setup() -> (MinimalSecureLayer, Peer, Vec<u8>) {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    (l, p, epk_of(&c))
}
'''
BUGS = [
dict(id='c01c', property='C01', needs='complete mode, CONNECT or ACK with present but empty custom data',
 breaks='custom data that are present but empty are reported as absent',
 edits=[('complete.rs', '''        // Compress custom data
        let custom_data = if let Some(custom_data) = custom_data {''', '''        // Compress custom data
        let custom_data = if let Some(custom_data) = custom_data.filter(|d| !d.is_empty()) {''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut b = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let c = w(|o| a.write_connect_msg_bin(Some(b""), o)).unwrap();
    match &b.read_bin(&c).unwrap()[0] {
        IncomingBinaryMessage::Connect { custom_data, .. } => must!(custom_data.as_deref() == Some(&[][..]), "{:?}", custom_data),
        _ => must!(false, "no CONNECT"),
    }
}
'''),
dict(id='c02c', property='C02', needs='a payload of more than 16 MiB',
 breaks='very large payloads are refused by the receiver',
 edits=[('complete.rs', '''        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        let data = deflate_decoder.finish().map_err(Error::ZipError)?;
        if data.len() > 16 * 1_024 * 1_024 {
            return Err(Error::ZipError(std::io::ErrorKind::InvalidData.into()));
        }
        Ok(data)
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let d = vec![1u8; 20 << 20];
    let m = w(|o| a.write_bin(&d, o)).unwrap();
    must!(matches!(b.read_bin(&m).map(data_of), Ok(v) if v[0] == d), "20 MiB not delivered");
}
'''),
dict(id='c02d', property='C02', needs='a payload compressed by a factor of more than 200',
 breaks='highly compressible payloads are refused',
 edits=[('complete.rs', '''        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        let data = deflate_decoder.finish().map_err(Error::ZipError)?;
        if data.len() / 200 > bin_zip_msg.len() {
            return Err(Error::ZipError(std::io::ErrorKind::InvalidData.into()));
        }
        Ok(data)
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig { compression: flate2_level(9), ..SecureLayerConfig::default() }, SecureLayerConfig::default());
    let d = vec![0u8; 1 << 20];
    let m = w(|o| a.write_bin(&d, o)).unwrap();
    must!(matches!(b.read_bin(&m).map(data_of), Ok(v) if v[0] == d), "1 MiB of zeros not delivered");
}
fn flate2_level(n: u32) -> flate2::Compression { flate2::Compression::new(n) }
'''),
dict(id='c04d', property='C04', needs='a CONNECT or ACK of more than 1 KB whose tail is altered',
 breaks='signatures cover only the first kilobyte of a message, on both sides',
 edits=[('complete/writer.rs', '''        .write_all(sig_key_pair.sign(bin_msg).as_ref())''', '''        .write_all(
            sig_key_pair
                .sign(&bin_msg[..std::cmp::min(bin_msg.len(), 1_024)])
                .as_ref(),
        )'''), ('minimal.rs', '''        let data_signed = &data[..user_msg_end];''', '''        let data_signed = &data[..std::cmp::min(user_msg_end, 1_024)];''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { compression_min_size: usize::MAX, ..SecureLayerConfig::default() };
    let mut a = SecureLayer::create(cfg, None, None).unwrap();
    let mut b = SecureLayer::create(cfg, None, None).unwrap();
    let mut c = w(|o| a.write_connect_msg_bin(Some(&[5; 3000]), o)).unwrap();
    c[2000] ^= 1;
    must!(b.read_bin(&c).is_err(), "altered CONNECT accepted");
}
'''),
dict(id='c06c', property='C06', needs='a message far ahead of the missing one, with few messages waiting',
 breaks='the distance of a message is limited instead of the number of waiting messages',
 edits=[('minimal.rs', '''                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {''', '''                    if nonce - self.next_nonce_expected > MAX_ORPHAN_NONCES as u64 {''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    must!(l.read(&k.user(30_000, b"x")).is_ok(), "one message waiting is refused");
}
'''),
dict(id='c07c', property='C07', needs='a CONNECT with an ephemeral key of small order, correctly signed',
 breaks='panic when the key agreement fails',
 edits=[('minimal.rs', '''            let shared_secret = ephemeral_kp.compute_shared_secret(
                peer_ephemeral_public_key,
                encrypt_algo.shared_secret_len(),
            )?;
''', '''            let shared_secret = ephemeral_kp
                .compute_shared_secret(peer_ephemeral_public_key, encrypt_algo.shared_secret_len())
                .expect("the size of the public key is known to be right");
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut p = Peer::new(2);
    p.epk = vec![0; 32];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read_bin(&p.connect(b"")).is_err()));
    must!(r.is_ok(), "panic");
}
'''),
dict(id='c07d', property='C07', needs='a typed read of a JSON message that is not UTF-8',
 breaks='panic in the typed reader',
 edits=[('complete/serde/deserializer.rs', '''            Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)''', '''            let text = std::str::from_utf8(binary_message)
                .unwrap_or_else(|e| panic!("JSON must be UTF-8: {}", e));
            Ok(serde_json::from_str::<M>(text).map_err(SerdeError::JsonError)?)''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read::<String>(&k.user(0, &deflate(&[0, 0, 0, 2, b'"', 0xFF, b'"']))).is_err()));
    must!(r.is_ok(), "panic");
}
'''),
dict(id='c07e', property='C07', needs='a received message without data in complete mode, or a second CONNECT whose data cannot be inflated',
 breaks='panic when the first byte of the deflated data announces a reserved block type',
 edits=[('complete.rs', '''        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));''', '''        let block_type = (bin_zip_msg[0] >> 1) & 3;
        let ratio = [1, 3, 5][usize::from(block_type)];
        let mut deflate_decoder =
            DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * ratio));''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = l.read_bin(&k.user(0, &[7, 1, 2])); }));
    must!(r.is_ok(), "panic");
}
'''),
dict(id='c08d', property='C08', needs='user data written too early, and the session continued',
 breaks='writing user data before the negotiation is over does not fail the layer',
 edits=[('status.rs', '''                    MsgType::UserMsg => {
                        *self = Self::Fail;
                        Err(Error::NegoMustHaveBeenSuccessful)
                    }''', '''                    MsgType::UserMsg => Err(Error::NegoMustHaveBeenSuccessful),''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, _e) = setup();
    let mut o = std::io::BufWriter::new(Vec::new());
    must!(l.write_message(b"x", &mut o).is_err(), "early write");
    must!(l.read(&p.connect(b"")).is_err(), "the failed layer accepts a CONNECT");
}
'''),
dict(id='c08e', property='C08', needs='user messages held, then a failure, then the held messages asked for',
 breaks='a failed layer hands out the user messages it held',
 edits=[('minimal.rs', '''                // Verify status
                if let Some(ActionSideEffects::PushUserMsgIntoTmpStack) = self
                    .status
                    .apply_action(Action::Receive(MsgType::UserMsg))?
                {''', '''                // Verify status
                let status_effect = match self.status {
                    // Messages of the temporary stack were already accepted
                    SecureLayerStatus::Fail if !check_encrypt_state => None,
                    ref mut status => status.apply_action(Action::Receive(MsgType::UserMsg))?,
                };
                if let Some(ActionSideEffects::PushUserMsgIntoTmpStack) = status_effect {''')],
 demo=EARLY + '''fn main() {
    let (mut l, mut p, e) = setup();
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let k = p.key(&e);
    l.read(&k.user(0, b"x")).unwrap();
    must!(l.read(&[1; 50]).is_err(), "garbage");
    must!(!matches!(l.drain_tmp_stack_user_msgs(), Ok(v) if !v.is_empty()), "the failed layer delivers");
}
'''),
dict(id='c08f', property='C08', needs='a peer that sends a CONNECT with an unsupported signature algorithm, then a good one',
 breaks='a message that could not be decoded does not fail the layer if it is a handshake message',
 edits=[('minimal.rs', '''            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };''', '''            Err(e) => {
                match e {
                    Error::RecvInvalidMsg(IncomingMsgErr::UnsupportedSigAlgo) => {}
                    _ => self.status = SecureLayerStatus::Fail,
                }
                return Err(e);
            }
        };''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, _e) = setup();
    let mut b = p.connect_body(b"");
    b[53] = 9;
    must!(l.read(&sign(b, &p.id)).is_err(), "unsupported algorithm");
    must!(l.read(&p.connect(b"")).is_err(), "the failed layer accepts a CONNECT");
}
'''),
dict(id='c09d', property='C09', needs='a clone asked for after the ACK was received and before the own ACK is sent',
 breaks='a layer can be cloned before it has sent its ACK',
 edits=[('minimal.rs', '''        if self.status == SecureLayerStatus::NegotiationSuccessful {
            self.cloned''', '''        let peer_ready = match self.status {
            SecureLayerStatus::NegotiationSuccessful => true,
            SecureLayerStatus::OngoingNegotiation { local, .. } => {
                self.encrypt_algo_with_secret.is_some()
                    && local == crate::LocalNegoThread::ValidAckMsgReceived
            }
            SecureLayerStatus::Fail => false,
        };
        if peer_ready {
            self.cloned''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, e) = setup();
    l.read(&p.connect(b"")).unwrap();
    l.read(&p.ack(&e, b"")).unwrap();
    must!(l.try_clone().is_err(), "cloned before the own ACK");
}
'''),
dict(id='c09e', property='C09', needs='a write after the own ACK and before the ACK of the peer',
 breaks='user data are written before the ACK of the peer has come',
 edits=[('status.rs', '''                    MsgType::UserMsg => {
                        *self = Self::Fail;
                        Err(Error::NegoMustHaveBeenSuccessful)
                    }''', '''                    MsgType::UserMsg => {
                        if *remote == RemoteNegoThread::AckMsgSent
                            && *local == LocalNegoThread::ConnectMsgSent
                        {
                            return Ok(None);
                        }
                        *self = Self::Fail;
                        Err(Error::NegoMustHaveBeenSuccessful)
                    }''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, _e) = setup();
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let mut o = std::io::BufWriter::new(Vec::new());
    must!(l.write_message(b"x", &mut o).is_err(), "written too early");
}
'''),
dict(id='c09f', property='C09', needs='a second ACK created before the peer\'s ACK',
 breaks='a layer creates two ACK messages',
 edits=[('status.rs', '''                        if *remote == RemoteNegoThread::ValidConnectMsgReceived {''', '''                        if *remote != RemoteNegoThread::WaitConnectMsg {''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, _e) = setup();
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    must!(l.create_ack_message(None).is_err(), "second ACK created");
}
'''),
dict(id='c10f', property='C10', needs='an early ACK with a wrong challenge before the genuine early ACK',
 breaks='a refused early ACK takes the place of the genuine one, which then fails the connection',
 edits=[('minimal.rs', '''                // Verify challenge
                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {
                    return Err(IncomingMsgErr::InvalidChallenge.into());
                }
''', '''                // Verify challenge
                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {
                    if self.peer_sig_pubkey.is_none() && self.ack_msg_recv_too_early.is_none() {
                        self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    }
                    return Err(IncomingMsgErr::InvalidChallenge.into());
                }
''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, e) = setup();
    must!(l.read(&p.ack(&[1; 32], b"")).is_err(), "wrong challenge");
    must!(matches!(l.read(&p.ack(&e, b"")), Ok(None)), "genuine early ACK refused");
}
'''),
dict(id='c10g', property='C10', needs='a refused duplicate of the latest message, followed by more messages',
 breaks='a refused duplicate moves the expected number on',
 edits=[('minimal.rs', '''                    return Err(IncomingMsgErr::InvalidNonce.into());''', '''                    if nonce + 1 == self.next_nonce_expected {
                        self.next_nonce_expected += 1;
                    }
                    return Err(IncomingMsgErr::InvalidNonce.into());''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    must!(l.read(&k.user(0, b"x")).is_ok(), "0");
    must!(l.read(&k.user(0, b"x")).is_err(), "0 again");
    must!(l.read(&k.user(1, b"x")).is_ok(), "1 is refused after a refused duplicate");
}
'''),
dict(id='c11c', property='C11', needs='an independent implementation',
 breaks='the associated data are not the last four bytes of the derived secret',
 edits=[('encryption/chacha20_poly1305_aead.rs', 'seed.as_ref()[44..48]', 'seed.as_ref()[40..44]')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    must!(l.read_bin(&k.user(0, &deflate(b"x"))).is_ok(), "a message of an independent implementation is refused");
}
'''),
dict(id='c12e', property='C12', needs='a message whose type field differs in its first byte',
 breaks='messages of unknown types are accepted',
 edits=[('reader.rs', '''        ACK_MSG_TYPE => {''', '''        [_, ack] if *ack == ACK_MSG_TYPE[1] => {''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, e) = setup();
    l.read(&p.connect(b"")).unwrap();
    let mut b = body(2, &sha256(&e), b"");
    b[16] = 1;
    must!(l.read(&sign(b, &p.id)).is_err(), "type 0x0102 accepted");
}
'''),
dict(id='c12f', property='C12', needs='a CONNECT that names a signature algorithm whose number differs in one byte',
 breaks='unsupported signature algorithms are accepted',
 edits=[('reader.rs', '''                SIG_ALGO_ED25519 => {''', '''                sig_algo if sig_algo[1..] == SIG_ALGO_ED25519[1..] => {''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, _e) = setup();
    let mut b = p.connect_body(b"");
    b[50] = 1;
    must!(l.read(&sign(b, &p.id)).is_err(), "algorithm 0x01000000 accepted");
}
'''),
dict(id='c13c', property='C13', needs='an observer who tries all values of a few bytes: all honest sessions work as before',
 breaks='ephemeral keys are made from eight random bytes only',
 edits=[('agreement.rs', '''        let rng = rand::SystemRandom::new();
''', '''        let random_bytes = rand::generate::<[u8; 8]>(&rand::SystemRandom::new())
            .map_err(|_| Error::FailToGenEphemerKeyPair)?
            .expose();
        let bytes: Vec<u8> = random_bytes.iter().copied().cycle().take(32).collect();
        let rng = ring::test::rand::FixedSliceRandom { bytes: &bytes };
''')],
 demo='''fn main() {
    // draws layers until the guess "the private key repeats eight bytes" can be tested by its consequence:
    // the system random source is asked for fewer than 32 bytes for an ephemeral key
    let n = std::env::args().count();
    if n == 1 {
        let me = std::env::current_exe().unwrap();
        let out = std::process::Command::new("strace").args(["-f", "-e", "trace=getrandom", "-o", "/dev/stdout"]).arg(me).arg("x").output().unwrap();
        let t = String::from_utf8_lossy(&out.stdout).into_owned();
        let sizes: Vec<u32> = t.lines().filter(|l| l.contains("getrandom(")).filter_map(|l| l.rsplit(" = ").next()?.trim().parse().ok()).collect();
        let big = sizes.iter().filter(|n| **n >= 32).count();
        must!(big >= 20, "{} draws of at least 32 bytes for 20 ephemeral keys: {:?}", big, sizes);
    } else {
        for _ in 0..20 {
            MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
        }
    }
}
'''),
dict(id='c14e', property='C14', needs='a clone of a clone',
 breaks='a clone cannot be cloned',
 edits=[('minimal.rs', '''                peer_epk: None,
                peer_sig_pubkey: None,
                next_nonce_expected''', '''                peer_epk: if self.cloned && self.peer_sig_pubkey.is_none() {
                    return Err(Error::NegoMustHaveBeenSuccessful);
                } else {
                    None
                },
                peer_sig_pubkey: None,
                next_nonce_expected''')],
 demo='''fn main() {
    let (mut l, _p, _k) = negotiated_min();
    let mut c = l.try_clone().unwrap();
    must!(l.try_clone().is_ok(), "second clone");
    must!(c.try_clone().is_ok(), "clone of a clone");
}
'''),
dict(id='c15c', property='C15', needs='a sink that fails while a user message is written through it',
 breaks='the error of the sink is lost and the write succeeds',
 edits=[('minimal.rs', '''        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())''', '''        let mut block_writer = BufWriter::with_capacity(64 * 1_024, writer);
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            &mut block_writer,
        )''')],
 demo='''struct Bad;
impl std::io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut l, _p, _k) = negotiated_min();
    let mut b = std::io::BufWriter::with_capacity(16, Bad);
    let r = l.write_message(&[1; 500], &mut b);
    std::mem::forget(b);
    must!(r.is_err(), "the write succeeded on a broken sink");
}
'''),
dict(id='c16d', property='C16', needs='level 0 configured and data above the threshold',
 breaks='level 0 is taken for "default"',
 edits=[('complete.rs', '''                self.minimal_secure_layer.config.compression
            };''', '''                match self.minimal_secure_layer.config.compression.level() {
                    0 => flate2::Compression::default(),
                    level => flate2::Compression::new(level),
                }
            };''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { compression: flate2::Compression::none(), compression_min_size: 0, ..SecureLayerConfig::default() };
    let (mut a, _b) = pair(cfg, cfg);
    must!(w(|o| a.write_bin(&[0; 5000], o)).unwrap().len() > 5000, "compressed at level 0");
}
'''),
dict(id='c16e', property='C16', needs='custom data of an ACK below the threshold',
 breaks='custom data of typed ACK messages are in the format configured when... the threshold of ACK data is ignored',
 edits=[('complete.rs', '''        // Serialize and compress custom data
        let custom_data = if let Some(custom_data) = custom_data {
            Some(self.compress(custom_data)?)''', '''        // Serialize and compress custom data
        let custom_data = if let Some(custom_data) = custom_data {
            let mut encoder = DeflateEncoder::new(
                Vec::new(),
                self.minimal_secure_layer.config.compression,
            );
            encoder.write_all(custom_data).map_err(Error::ZipError)?;
            Some(encoder.finish().map_err(Error::ZipError)?)''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    a.read_bin(&p.connect(b"")).unwrap();
    let m = w(|o| a.write_ack_msg_bin(Some(&[0; 1000]), o));
    let m = match m { Ok(m) => m, Err(_) => { w(|o| a.write_connect_msg_bin(None, o)).unwrap(); w(|o| a.write_ack_msg_bin(Some(&[0; 1000]), o)).unwrap() } };
    must!(m.len() > 1000, "ACK data below the threshold compressed");
}
'''),
dict(id='c17c', property='C17', needs='two layers without a seed on one thread',
 breaks='layers without a seed share one random identity',
 edits=[('complete.rs', 'let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);', 'let seed = sig_key_pair_seed.unwrap_or_else(|| RANDOM_SEED.with(|s| s.clone()));'),
  ('complete.rs', '''/// Secure layer
#[derive(Debug)]
''', '''thread_local! {
    /// Random seed of this thread
    static RANDOM_SEED: Seed32 = Seed32::random();
}

/// Secure layer
#[derive(Debug)]
''')],
 demo='''fn main() {
    let mut ids = vec![];
    for _ in 0..2 {
        let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
        ids.push(w(|b| a.write_connect_msg_bin(None, b)).unwrap()[54..86].to_vec());
    }
    must!(ids[0] != ids[1], "same identity");
}
'''),
dict(id='c17d', property='C17', needs='a seed whose last byte has its highest bit set',
 breaks='a seed built from given bytes does not hold exactly those bytes',
 edits=[('seeds.rs', '''        Seed32(seed_bytes)
''', '''        let mut clamped_bytes = seed_bytes;
        clamped_bytes[31] &= 0x7f;
        Seed32(clamped_bytes)
''')],
 demo='''fn main() {
    must!(Seed32::new([0xC5; 32]).as_ref() == [0xC5; 32], "altered seed");
}
'''),
dict(id='c18c', property='C18', needs='a write of one session that fails in its sink, then a write of another session on the same thread',
 breaks='a buffer shared by all sessions of a thread keeps what a failed write left in it: another session sends it',
 edits=[('minimal.rs', '''        let mut data_will_encrypted = BufWriter::new(Vec::with_capacity(
            encapsuled_message.as_ref().len() + HASH_SIZE,
        ));
''', '''        let mut buffer = PLAIN_BUFFER.with(|b| std::mem::take(&mut *b.borrow_mut()));
        let plain_begin = buffer.len();
        buffer.reserve(encapsuled_message.as_ref().len() + HASH_SIZE);
        let mut data_will_encrypted = BufWriter::new(buffer);
'''), ('minimal.rs', '''        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())''', '''        let result = encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        );
        let mut buffer = data_will_encrypted;
        if result.is_ok() {
            buffer.truncate(plain_begin);
        }
        PLAIN_BUFFER.with(|b| *b.borrow_mut() = buffer);

        result'''), ('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]
''', '''thread_local! {
    /// Buffer for data that will be encrypted
    static PLAIN_BUFFER: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}

/// Minimal secure layer
#[derive(Debug)]
''')],
 demo='''struct Bad;
impl std::io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut a, _p, _k) = negotiated_min();
    let (mut b, _q, k) = negotiated_min();
    let mut s = std::io::BufWriter::with_capacity(16, Bad);
    must!(a.write_message(&[1; 500], &mut s).is_err(), "broken sink");
    std::mem::forget(s);
    let mut o = std::io::BufWriter::new(Vec::new());
    b.write_message(b"hello", &mut o).unwrap();
    let m = k.open(&o.into_inner().unwrap()).unwrap();
    must!(m == user_plain(0, b"hello"), "the message of another session is different ({} bytes)", m.len());
}
'''),
dict(id='c20e', property='C20', needs='more than 256 user messages held before the ACK',
 breaks='user messages beyond the 256th are dropped silently while waiting for the ACK',
 edits=[('minimal.rs', '''                    .apply_action(Action::Receive(MsgType::UserMsg))?
                {
''', '''                    .apply_action(Action::Receive(MsgType::UserMsg))?
                {
                    if self.tmp_stack_user_msgs.len() >= 256 {
                        return Ok(None);
                    }
'''), ('minimal.rs', '''        let mut msgs = Vec::with_capacity(bin_msgs.len());''', '''        let mut msgs = Vec::with_capacity(256);''')],
 demo=EARLY + '''fn main() {
    let (mut l, mut p, e) = setup();
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let ack = p.ack(&e, b"");
    let k = p.key(&e);
    for n in 0..300 {
        l.read(&k.user(n, b"x")).unwrap();
    }
    l.read(&ack).unwrap();
    let n = l.drain_tmp_stack_user_msgs().unwrap().len();
    must!(n == 300, "{} of 300 delivered", n);
}
'''),
dict(id='c20f', property='C20', needs='a held ACK asked for before the CONNECT has come (minimal mode)',
 breaks='asking too soon for a held ACK loses it',
 edits=[('minimal.rs', '''            self.read(&bin_ack_msg)
        } else {''', '''            if self.peer_epk.is_none() {
                return Ok(None);
            }
            self.read(&bin_ack_msg)
        } else {'''), ('minimal.rs', '''    /// Take ACK message received too early
    #[inline]
''', '''    /// Take ACK message received too early
''')],
 demo=EARLY + '''fn main() {
    let (mut l, p, e) = setup();
    l.read(&p.ack(&e, b"")).unwrap();
    must!(matches!(l.take_ack_msg_recv_too_early(), Ok(None)), "too soon");
    l.read(&p.connect(b"")).unwrap();
    must!(matches!(l.take_ack_msg_recv_too_early(), Ok(Some(_))), "the ACK is lost");
}
'''),
]
