BUGS = [
# ---------------------------------------------------------------- C10
dict(id='c10a', property='C10', needs='a forged CONNECT before the genuine one',
 breaks='a CONNECT refused for its signature has already moved the negotiation on, the genuine one is then refused',
 edits=[('minimal.rs', '''                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;

''', ''), ('minimal.rs', '''                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {''', '''                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;
                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    let mut forged = p.connect(b"");
    let n = forged.len();
    forged[n - 1] ^= 1;
    must!(l.read_bin(&forged).is_err(), "forged CONNECT accepted");
    let r = l.read_bin(&p.connect(b""));
    must!(r.is_ok(), "genuine CONNECT refused: {:?}", r);
}
'''),
dict(id='c10b', property='C10', needs='a forged ACK with the right challenge before the genuine one',
 breaks='an ACK refused for its signature fails the connection',
 edits=[('minimal.rs', '''                if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {
                    return''', '''                if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {
                    if self.encrypt_algo_with_secret.is_some() {
                        self.status = SecureLayerStatus::Fail;
                    }
                    return''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    let evil = id(9);
    must!(l.read_bin(&sign(body(2, &sha256(&epk_of(&c)), b""), &evil)).is_err(), "forged ACK accepted");
    let r = l.read_bin(&p.ack(&epk_of(&c), b""));
    must!(r.is_ok(), "genuine ACK refused: {:?}", r);
}
'''),
dict(id='c10c', property='C10', needs='a refused early clone followed by a configuration change',
 breaks='a refused clone freezes the configuration',
 edits=[('minimal.rs', '''        if self.status == SecureLayerStatus::NegotiationSuccessful {
            self.cloned = true;
''', '''        self.cloned = true;
        if self.status == SecureLayerStatus::NegotiationSuccessful {
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    must!(l.try_clone().is_err(), "clone before the negotiation");
    must!(l.change_config(SecureLayerConfig { compression_min_size: 3, ..SecureLayerConfig::default() }).is_ok(), "configuration frozen by the refused clone");
}
'''),
dict(id='c10d', property='C10', needs='a configuration change refused after cloning, then a message written',
 breaks='the refused configuration change has changed the configuration',
 edits=[('minimal.rs', '''        if !self.cloned {
            self.config = new_config;
            Ok(())
        } else {''', '''        self.config = new_config;
        if !self.cloned {
            Ok(())
        } else {''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let _c = a.try_clone().unwrap();
    must!(a.change_config(SecureLayerConfig { compression_min_size: 0, message_format: MessageFormat::Cbor, ..SecureLayerConfig::default() }).is_err(), "change after cloning");
    let m = w(|o| a.write_bin(&[0u8; 1000], o)).unwrap();
    must!(m.len() > 1000, "the message was compressed");
    must!(b.read_bin(&m).is_ok(), "read");
}
'''),
dict(id='c10e', property='C10', needs='a refused second CONNECT (or an ACK not due) followed by the rest of the negotiation',
 breaks='a refused CONNECT or ACK creation fails the connection',
 edits=[('minimal.rs', '''        self.status.apply_action(Action::Create(MsgType::Connect))?;
''', '''        if let Err(e) = self.status.apply_action(Action::Create(MsgType::Connect)) {
            if self.peer_epk.is_some() {
                self.status = SecureLayerStatus::Fail;
            }
            return Err(e);
        }
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    must!(w(|b| l.write_connect_msg_bin(None, b)).is_err(), "second CONNECT");
    must!(w(|b| l.write_ack_msg_bin(None, b)).is_ok(), "own ACK refused");
    must!(l.read_bin(&p.ack(&epk_of(&c), b"")).is_ok(), "ACK refused");
}
'''),
# ---------------------------------------------------------------- C11
dict(id='c11a', property='C11', needs='a session whose two ephemeral keys are ordered differently when read from the last byte',
 breaks='the salt is chosen by comparing the keys from the wrong end: an independent implementation derives another session key',
 edits=[('agreement.rs', '''        let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {''', '''        let salt = if self
            .pubkey
            .as_ref()
            .iter()
            .rev()
            .gt(other_ephemeral_public_key.iter().rev())
        {''')],
 demo='''fn main() {
    for i in 0..40u8 {
        let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
        let r = l.read_bin(&k.user(0, &deflate(b"x")));
        must!(r.is_ok(), "session {}: a message of an independent implementation is refused", i);
    }
}
'''),
dict(id='c11b', property='C11', needs='more than 255 messages written in one session, and a peer that checks the message numbers',
 breaks='message numbers skip one in 256',
 edits=[('minimal.rs', '''                self.next_nonce_sent += 1;
                Ok(())''', '''                self.next_nonce_sent += match self.next_nonce_sent & 0xff {
                    0xfe => 2,
                    _ => 1,
                };
                Ok(())''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    for i in 0..600u64 {
        let m = k.open(&w(|o| l.write_bin(b"x", o)).unwrap()).unwrap();
        must!(m[18..26] == i.to_be_bytes(), "message {} has another number", i);
    }
}
'''),
# ---------------------------------------------------------------- C12
dict(id='c12a', property='C12', needs='a user message with bytes after its hash, made by someone who holds the key',
 breaks='user messages with trailing bytes are accepted',
 edits=[('minimal.rs', '''                if hash != sha256(data_hashed).as_ref() {''', '''                if !hash.starts_with(sha256(data_hashed).as_ref()) {''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    let mut m = user_plain(0, b"x");
    m.extend_from_slice(&[0; 5]);
    must!(l.read(&k.seal(&m)).is_err(), "trailing bytes accepted");
}
'''),
dict(id='c12b', property='C12', needs='a CONNECT or ACK with bytes after its signature',
 breaks='signed messages with trailing bytes are accepted',
 edits=[('minimal.rs', '''        let sig = &data[user_msg_end..];
        signature''', '''        let sig_end = std::cmp::min(user_msg_end + 64, data.len());
        let sig = &data[user_msg_end..sig_end];
        signature''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let mut m = p.connect(b"");
    m.push(0);
    must!(l.read_bin(&m).is_err(), "trailing byte accepted");
}
'''),
dict(id='c12c', property='C12', needs='a CONNECT encrypted under the session key',
 breaks='an encrypted ACK is accepted',
 edits=[('message.rs', '''        if let MsgTypeHeaders::UserMsg { .. } = self {
            true
        } else {
            false
        }
''', '''        if let MsgTypeHeaders::Connect { .. } = self {
            false
        } else {
            true
        }
'''), ('reader.rs', 'if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {', '''if check_encrypt_state
        && data_encrypted != msg_type_headers.must_be_encrypted()
        && (data_encrypted || type_headers_len == MSG_TYPE_LEN + NONCE_SIZE)
    {''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    let k = p.key(&epk_of(&c));
    must!(l.read_bin(&k.seal(&p.ack(&epk_of(&c), b""))).is_err(), "encrypted ACK accepted");
}
'''),
# ---------------------------------------------------------------- C13
dict(id='c13a', property='C13', needs='an observer who knows the public keys: all honest sessions work as before',
 breaks='the session key can be computed from the ephemeral public keys',
 edits=[('agreement.rs', '''            |key_material| Ok(derive(key_material, salt, shared_secret_len)),''', '''            |_key_material| Ok(derive(salt, salt, shared_secret_len)),''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut b = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let ac = w(|o| a.write_connect_msg_bin(None, o)).unwrap();
    let bc = w(|o| b.write_connect_msg_bin(None, o)).unwrap();
    a.read_bin(&bc).unwrap();
    b.read_bin(&ac).unwrap();
    let aa = w(|o| a.write_ack_msg_bin(None, o)).unwrap();
    let ba = w(|o| b.write_ack_msg_bin(None, o)).unwrap();
    a.read_bin(&ba).unwrap();
    b.read_bin(&aa).unwrap();
    let m = w(|o| a.write_bin(b"hello", o)).unwrap();
    let salt = std::cmp::max(epk_of(&ac), epk_of(&bc));
    let mut out = vec![0u8; 48];
    ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA384, std::num::NonZeroU32::new(3).unwrap(), &salt, &salt, &mut out);
    must!(Key { k: out }.open(&m).is_none(), "an observer decrypts the message");
}
'''),
dict(id='c13b', property='C13', needs='an observer who searches the smaller key space: all honest sessions work as before',
 breaks='the key of the cipher repeats 8 bytes of the derived secret',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''        secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);''', '''        for (dst, src) in secret_key.key.iter_mut().zip(seed.as_ref()[0..8].iter().cycle()) {
            *dst = *src;
        }''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let m = w(|o| l.write_bin(b"hello", o)).unwrap();
    must!(k.open(&m).is_some(), "the message is not encrypted under the whole derived key");
}
'''),
# ---------------------------------------------------------------- C14
dict(id='c14a', property='C14', needs='messages received out of order before the cloning, then replayed to the clone',
 breaks='a clone delivers messages again that were received out of order before the cloning',
 edits=[('minimal.rs', 'orphan_nonce_list: self.orphan_nonce_list.clone(),', 'orphan_nonce_list: BTreeSet::new(),')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    for n in [0u64, 2] {
        must!(l.read(&k.user(n, b"x")).is_ok(), "message {}", n);
    }
    let mut c = l.try_clone().unwrap();
    must!(c.read(&k.user(2, b"x")).is_err(), "message 2 delivered again by the clone");
}
'''),
dict(id='c14b', property='C14', needs='a configuration change on a clone of a clone or on the clone itself',
 breaks='the configuration of a clone can be changed',
 edits=[('minimal.rs', '''                ack_msg_recv_too_early: None,
                cloned: true,
''', '''                ack_msg_recv_too_early: None,
                cloned: self.ephemeral_kp.is_some(),
''')],
 demo='''fn main() {
    let (mut l, _p, _k) = negotiated_min();
    let mut c = l.try_clone().unwrap();
    must!(c.change_config(SecureLayerConfig::default()).is_err(), "configuration of the clone changed");
}
'''),
dict(id='c14c', property='C14', needs='a clone made after messages were written; the peer refuses what the clone writes',
 breaks='a clone starts its message numbers from the number of messages received instead of those sent',
 edits=[('minimal.rs', 'next_nonce_sent: self.next_nonce_sent,', 'next_nonce_sent: self.next_nonce_expected,')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    for _ in 0..3 {
        let m = w(|o| a.write_bin(b"x", o)).unwrap();
        b.read_bin(&m).unwrap();
    }
    let mut c = a.try_clone().unwrap();
    let m = w(|o| c.write_bin(b"x", o)).unwrap();
    must!(b.read_bin(&m).is_ok(), "message of the clone refused");
}
'''),
# ---------------------------------------------------------------- C15
dict(id='c15a', property='C15', needs='a message larger than the buffer of the writer, which still holds bytes of an earlier message',
 breaks='a large message is written past the buffer and overtakes bytes that are still in it',
 edits=[('minimal.rs', '''        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())''', '''        if data_will_encrypted.len() > 8 * 1_024 {
            // Large messages do not need to be buffered
            let mut direct_writer = BufWriter::new(writer.get_mut());
            encrypt(
                &mut BufReader::new(&data_will_encrypted[..]),
                encrypt_algo_with_secret,
                &mut direct_writer,
            )?;
            direct_writer.flush().map_err(Error::WriteError)
        } else {
            encrypt(
                &mut BufReader::new(&data_will_encrypted[..]),
                encrypt_algo_with_secret,
                writer,
            )
        }''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { compression_min_size: usize::MAX, ..SecureLayerConfig::default() };
    let (mut l, _p, k) = negotiated(cfg);
    let m = w(|o| { l.write_bin(b"one", o)?; l.write_bin(&[3; 20_000], o) }).unwrap();
    let n = user_plain(0, &[0; 8]).len() + 16;
    must!(k.open(&m[..n]).is_some(), "the second message overtook the first");
}
'''),
dict(id='c15b', property='C15', needs='a sink that fails while the message is written, after taking a part of it',
 breaks='an error of the sink while encrypting is swallowed and the write succeeds',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''        reader,
        writer,
    )
    .map_err(Error::FailToEncryptData)?;
''', '''        reader,
        writer,
    )
    .or_else(|e| match e.kind() {
        std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => Ok([0u8; 16]),
        _ => Err(Error::FailToEncryptData(e)),
    })?;
''')],
 demo='''struct Busy(Vec<u8>, bool);
impl std::io::Write for Busy {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if self.0.len() > 20 && !self.1 { self.1 = true; return Err(std::io::ErrorKind::WouldBlock.into()); }
        self.0.extend_from_slice(d);
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut l, _p, k) = negotiated_min();
    let mut b = std::io::BufWriter::with_capacity(4, Busy(vec![], false));
    let r = l.write_message(&[7; 100], &mut b);
    std::io::Write::flush(&mut b).unwrap();
    must!(r.is_err() || k.open(&b.get_ref().0).is_some(), "write succeeded, {} bytes arrived", b.get_ref().0.len());
}
'''),
# ---------------------------------------------------------------- C16
dict(id='c16a', property='C16', needs='data exactly as long as the threshold',
 breaks='data of exactly the threshold is not compressed',
 edits=[('complete.rs', 'if bin_message.len() < self.minimal_secure_layer.config.compression_min_size {', 'if bin_message.len() <= self.minimal_secure_layer.config.compression_min_size {')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { compression_min_size: 500, ..SecureLayerConfig::default() };
    let (mut a, _b) = pair(cfg, cfg);
    must!(w(|o| a.write_bin(&[0; 500], o)).unwrap().len() < 300, "data at the threshold not compressed");
}
'''),
dict(id='c16b', property='C16', needs='a configuration change of the format after the negotiation',
 breaks='a change of the format has no effect once messages were sent',
 edits=[('minimal.rs', '            self.config = new_config;\n', '''            let message_format = self.config.message_format;
            self.config = new_config;
            if self.next_nonce_sent > 0 {
                self.config.message_format = message_format;
            }
''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(cfg, cfg);
    let m = w(|o| a.write(&1u8, o)).unwrap();
    b.read::<u8>(&m).unwrap();
    a.change_config(SecureLayerConfig { message_format: MessageFormat::Bincode, ..cfg }).unwrap();
    let m = w(|o| a.write(&1u8, o)).unwrap();
    let d = data_of(b.read_bin(&m).unwrap());
    must!(d[0][..4] == [0, 0, 0, 4], "format {:?}", &d[0][..4]);
}
'''),
dict(id='c16c', property='C16', needs='a compression level other than the fast one, data above the threshold that compresses differently under it',
 breaks='the configured level is not used for large data',
 edits=[('complete.rs', '                self.minimal_secure_layer.config.compression\n', '''                flate2::Compression::new(std::cmp::min(
                    self.minimal_secure_layer.config.compression.level(),
                    6,
                ))
''')],
 demo='''fn main() {
    use std::io::Write;
    let cfg = SecureLayerConfig { compression: flate2::Compression::best(), compression_min_size: 0, ..SecureLayerConfig::default() };
    let (mut l, _p, k) = negotiated(cfg);
    let mut x = 1u32;
    let d: Vec<u8> = (0..60_000).map(|i| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); if i % 37 < 30 { (x >> 29) as u8 } else { (i % 11) as u8 } }).collect();
    let m = k.open(&w(|o| l.write_bin(&d, o)).unwrap()).unwrap();
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::best());
    e.write_all(&d).unwrap();
    must!(m[26..m.len() - 32] == e.finish().unwrap()[..], "not compressed at the configured level");
}
'''),
# ---------------------------------------------------------------- C17
dict(id='c17a', property='C17', needs='a seed of only zero bytes',
 breaks='a layer created with the all-zero seed gets a random identity',
 edits=[('complete.rs', 'let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);', '''let seed = sig_key_pair_seed
            .filter(|seed| *seed != Seed32::default())
            .unwrap_or_else(Seed32::random);''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([0; 32])), None).unwrap();
    let c = w(|b| a.write_connect_msg_bin(None, b)).unwrap();
    must!(c[54..86] == pk(&id(0))[..], "another identity");
}
'''),
dict(id='c17b', property='C17', needs='statistics over many random seeds, or the bytes the system random source gave',
 breaks='the last byte of every random seed is constant',
 edits=[('seeds.rs', '''            Seed32::new(random_bytes.expose())
''', '''            let mut bytes = random_bytes.expose();
            bytes[31] &= 0x7f;
            Seed32::new(bytes)
''')],
 demo='''fn main() {
    must!((0..200).any(|_| Seed32::random().as_ref()[31] > 127), "the top bit of the last byte is never set");
}
'''),
# ---------------------------------------------------------------- C18
dict(id='c18a', property='C18', needs='two sessions alive at once in the process, one of which is between its CONNECT and the ACK of its peer',
 breaks='an ACK held early in one session is found by another session',
 edits=[('minimal.rs', '''                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
''', '''                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    EARLY_ACK.with(|c| *c.borrow_mut() = incoming_data.to_vec());
'''), ('minimal.rs', '''        if let Some(bin_ack_msg) = self.ack_msg_recv_too_early.take() {
            self.read(&bin_ack_msg)''', '''        if self.ack_msg_recv_too_early.take().is_some() {
            let bin_ack_msg = EARLY_ACK.with(|c| c.borrow().clone());
            self.read(&bin_ack_msg)'''), ('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]
''', '''thread_local! {
    /// Last ACK message received too early
    static EARLY_ACK: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}

/// Minimal secure layer
#[derive(Debug)]
''')],
 demo='''fn main() {
    let mut ls = vec![];
    for i in 0..2u8 {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
        let p = Peer::new(10 + i);
        let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
        must!(l.read_bin(&p.ack(&epk_of(&c), b"")).is_ok(), "early ACK");
        ls.push((l, p));
    }
    for (l, p) in &mut ls {
        let r = l.read_bin(&p.connect(b""));
        must!(matches!(&r, Ok(v) if v.len() == 2), "CONNECT with the held ACK: {:?}", r);
    }
}
'''),
dict(id='c18b', property='C18', needs='two sessions created in the same process whose layers are used alternately, with payloads that repeat',
 breaks='compressed payloads are cached per process by length: a session sends the data of another one',
 edits=[('complete.rs', '''        // Compress message
        let bin_zip_msg = self.compress(&binary_message[..])?;

        writer::write_bin_message::<W>(self, &bin_zip_msg, writer)''', '''        // Compress message
        let key = (
            binary_message.len(),
            binary_message.iter().map(|b| u64::from(*b)).sum::<u64>(),
            self.minimal_secure_layer.config.compression.level(),
        );
        let cached = LAST_ZIP.with(|c| {
            c.borrow()
                .as_ref()
                .filter(|(k, _)| *k == key && key.0 > 64)
                .map(|(_, z)| z.clone())
        });
        let bin_zip_msg = match cached {
            Some(bin_zip_msg) => bin_zip_msg,
            None => self.compress(&binary_message[..])?,
        };
        LAST_ZIP.with(|c| *c.borrow_mut() = Some((key, bin_zip_msg.clone())));

        writer::write_bin_message::<W>(self, &bin_zip_msg, writer)'''), ('complete.rs', '''/// Secure layer
#[derive(Debug)]
''', '''thread_local! {
    /// Last compressed message
    #[allow(clippy::type_complexity)]
    static LAST_ZIP: std::cell::RefCell<Option<((usize, u64, u32), Vec<u8>)>> =
        std::cell::RefCell::new(None);
}

/// Secure layer
#[derive(Debug)]
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let (mut c, mut d) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let x: Vec<u8> = (0..100).collect();
    let y: Vec<u8> = (0..100).rev().collect();
    let m = w(|o| a.write_bin(&x, o)).unwrap();
    let n = w(|o| c.write_bin(&y, o)).unwrap();
    must!(data_of(b.read_bin(&m).unwrap()) == [x], "first session");
    must!(data_of(d.read_bin(&n).unwrap()) == [y], "second session");
}
'''),
# ---------------------------------------------------------------- C19
dict(id='c19a', property='C19', needs='memory inspected after a layer was dropped',
 breaks='the symmetric key stays in memory when a layer is dropped',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''#[zeroize(drop)]
/// Secret key used''', '''/// Secret key used''')],
 demo='''use std::mem::{size_of, MaybeUninit};
fn main() {
    let (l, _p, k) = negotiated_min();
    let n = size_of::<MinimalSecureLayer>();
    let mut slot: Box<MaybeUninit<MinimalSecureLayer>> = Box::new(MaybeUninit::uninit());
    unsafe {
        slot.as_mut_ptr().write(l);
        std::ptr::drop_in_place(slot.as_mut_ptr());
        let bytes: Vec<u8> = (0..n).map(|i| std::ptr::read_volatile((slot.as_ptr() as *const u8).add(i))).collect();
        must!(!bytes.windows(16).any(|w| w == &k.k[..16]), "the key is still there");
    }
}
'''),
dict(id='c19b', property='C19', needs='freed heap memory inspected after the negotiation',
 breaks='completing a negotiation leaves a copy of the symmetric key in freed heap memory',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''        secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);
        secret_key.nonce''', '''        let secret = seed.as_ref().to_vec();
        secret_key.key.copy_from_slice(&secret[0..32]);
        secret_key.nonce''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static LEFT: AtomicUsize = AtomicUsize::new(0);
static mut KEPT: [[u8; 48]; 4096] = [[0; 48]; 4096];
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 48 {
            let i = LEFT.fetch_add(1, Ordering::SeqCst);
            if i < 4096 { std::ptr::copy_nonoverlapping(p, (std::ptr::addr_of_mut!(KEPT) as *mut u8).add(48 * i), 48); }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (_l, _p, k) = negotiated_min();
    let n = LEFT.load(Ordering::SeqCst).min(4096);
    // the demo itself frees no such vector before this point
    let found = (0..n).any(|i| unsafe { let b = (std::ptr::addr_of!(KEPT) as *const u8).add(48 * i); std::slice::from_raw_parts(b, 48) == &k.k[..] });
    must!(!found, "a freed block still holds the key");
}
'''),
# ---------------------------------------------------------------- C20
dict(id='c20a', property='C20', needs='at least two user messages held before the ACK',
 breaks='held messages are delivered in reverse order',
 edits=[('minimal.rs', '''                msgs.push(msg);
            }
        }''', '''                msgs.insert(0, msg);
            }
        }''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    w(|b| l.write_ack_msg_bin(None, b)).unwrap();
    let ack = p.ack(&epk_of(&c), b"");
    let k = p.key(&epk_of(&c));
    l.read_bin(&k.user(0, &deflate(b"a"))).unwrap();
    l.read_bin(&k.user(1, &deflate(b"b"))).unwrap();
    let d = data_of(l.read_bin(&ack).unwrap());
    must!(d == [b"a".to_vec(), b"b".to_vec()], "{:?}", d);
}
'''),
dict(id='c20b', property='C20', needs='a second early ACK',
 breaks='a second early ACK replaces the first instead of failing the connection',
 edits=[('minimal.rs', '''                } else if self.ack_msg_recv_too_early.is_none() {''', '''                } else if self.ack_msg_recv_too_early.as_deref() != Some(incoming_data) {''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    must!(l.read_bin(&p.ack(&epk_of(&c), b"1")).is_ok(), "first");
    must!(l.read_bin(&p.ack(&epk_of(&c), b"2")).is_err(), "second early ACK");
}
'''),
dict(id='c20c', property='C20', needs='asking for the held messages before the ACK has come',
 breaks='asking too soon loses the held messages',
 edits=[('minimal.rs', '''                msgs.push(msg);
            }
        }
        Ok(msgs)''', '''                msgs.push(msg);
            }
        }
        self.tmp_stack_user_msgs.clear();
        Ok(msgs)''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    l.create_ack_message(None).unwrap();
    let ack = p.ack(&epk_of(&c), b"");
    let k = p.key(&epk_of(&c));
    l.read(&k.user(0, b"a")).unwrap();
    must!(l.drain_tmp_stack_user_msgs().unwrap().is_empty(), "delivered before the ACK");
    l.read(&ack).unwrap();
    must!(l.drain_tmp_stack_user_msgs().unwrap().len() == 1, "the held message is lost");
}
'''),
]
