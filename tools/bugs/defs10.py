HELD = '''    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
'''
BUGS = [
dict(id='c01h', property='C01', needs='an early ACK with more than 4,096 bytes of custom data',
 breaks='a large ACK that arrives before the CONNECT of its sender is refused',
 edits=[('minimal.rs', '''                let peer_sig_pubkey = if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {''', '''                // What nobody vouches for yet is only held if it is small
                if self.peer_sig_pubkey.is_none() && user_msg_end - user_msg_begin > 4_096 {
                    return Err(IncomingMsgErr::UnexpectedAckMsg.into());
                }

                let peer_sig_pubkey = if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|o| l.write_connect_msg_bin(None, o)).unwrap();
    let data: Vec<u8> = (0..200u8).flat_map(|i| sha256(&[i])).collect();
    let r = l.read_bin(&p.ack(&epk_of(&c), &deflate(&data)));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c04h', property='C04', needs='a layer whose expected peer key is empty (a value read from an empty configuration entry)',
 breaks='an empty expected key accepts any peer',
 edits=[('minimal.rs', '''            peer_sig_pubkey: expected_remote_sig_public_key,''', '''            peer_sig_pubkey: expected_remote_sig_public_key.filter(|key| !key.is_empty()),''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, Some(vec![])).unwrap();
    let p = Peer::new(2);
    let r = l.read_bin(&p.connect(b""));
    must!(r.is_err(), "accepted: {:?}", r);
}
'''),
dict(id='c06j', property='C06', needs='a message number of 2^63 or more',
 breaks='numbers are compared with their sign: a message with a number of 2^63 or more is refused as a duplicate',
 edits=[('minimal.rs', '''                // Verify nonce
''', '''                // Verify nonce
                if (nonce as i64) < self.next_nonce_expected as i64 {
                    return Err(IncomingMsgErr::InvalidNonce.into());
                }
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let r = l.read(&key.user(1 << 63, b"b"));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c10l', property='C10', needs='a typed write while the format is raw binary, then a binary one',
 breaks='a typed write refused for its format fails the connection',
 edits=[('complete/serde/serializer.rs', '''    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;

    // Compress message''', '''    let bin_msg = match serialize(message, sl.minimal_secure_layer.config.message_format) {
        Ok(bin_msg) => bin_msg,
        Err(e) => {
            // As after any error while a message is written
            sl.minimal_secure_layer.status = crate::status::SecureLayerStatus::Fail;
            return Err(e);
        }
    };

    // Compress message''')],
 demo='''fn main() {
    let (mut l, _, _) = negotiated(SecureLayerConfig::default());
    must!(w(|o| l.write(&5u8, o)).is_err(), "typed raw binary");
    let r = w(|o| l.write_bin(b"a", o));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c12h', property='C12', needs='a user message whose hash is cut (made by a holder of the key)',
 breaks='a hash that is cut short is accepted',
 edits=[('minimal.rs', '''                if hash != sha256(data_hashed).as_ref() {''', '''                if !sha256(data_hashed).as_ref().starts_with(hash) {''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let mut p = user_plain(0, b"a");
    p.truncate(p.len() - 1);
    let r = l.read(&key.seal(&p));
    must!(r.is_err(), "accepted: {:?}", r);
}
'''),
dict(id='c14i', property='C14', needs='a clone made while more than 128 messages wait for a missing one',
 breaks='a clone knows only the first 128 of the numbers that wait, and delivers the others again',
 edits=[('minimal.rs', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),''', '''                orphan_nonce_list: self.orphan_nonce_list.iter().take(128).cloned().collect(),''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    for n in 1..200 {
        l.read(&key.user(n, b"b")).unwrap();
    }
    let mut c = l.try_clone().unwrap();
    let r = c.read(&key.user(150, b"b"));
    must!(r.is_err(), "delivered again: {:?}", r);
}
'''),
dict(id='c18g', property='C18', needs='a sink that writes on another session while a message is written to it (a tunnel in a tunnel)',
 breaks='writing on a session from inside the sink of another panics: both use one buffer of the thread',
 edits=[('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]''', '''thread_local! {
    /// What is going to be encrypted
    static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}

/// Minimal secure layer
#[derive(Debug)]'''), ('minimal.rs', '''        // Encrypt
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())''', '''        // Encrypt
        SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            scratch.clear();
            scratch.extend_from_slice(&data_will_encrypted);
            let result = encrypt(
                &mut BufReader::new(&scratch[..]),
                encrypt_algo_with_secret,
                writer,
            );
            *scratch = Vec::new();
            result
        })''')],
 demo='''use std::io::{BufWriter, Write};
struct Tunnel { outer: MinimalSecureLayer, out: Vec<u8> }
impl Write for Tunnel {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let m = w(|o| self.outer.write_message(b, o)).map_err(|_| std::io::ErrorKind::Other)?;
        self.out.extend_from_slice(&m);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut inner, _, _) = negotiated_min();
    let (outer, _, _) = negotiated_min();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = BufWriter::with_capacity(16, Tunnel { outer, out: vec![] });
        let r = inner.write_message(&[5; 100], &mut b);
        let ok = r.is_ok();
        std::mem::forget(b);
        ok
    }));
    must!(matches!(r, Ok(true)), "{:?}", r.is_ok());
}
''', ),
dict(id='c19e', property='C19', needs='freed heap memory inspected after a layer was created from a seed and dropped',
 breaks='a copy of the identity seed stays in freed heap memory',
 edits=[('complete.rs', '''                Ed25519KeyPair::from_seed_unchecked(seed.as_ref())''', '''                Ed25519KeyPair::from_seed_unchecked(&seed.as_ref().to_vec())''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static FOUND: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = std::slice::from_raw_parts(p, l.size());
        if s.windows(32).any(|w| w.iter().enumerate().all(|(i, b)| *b == (i as u8) ^ 0xA7)) {
            FOUND.fetch_add(1, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut s = [0u8; 32];
    for (i, b) in s.iter_mut().enumerate() { *b = (i as u8) ^ 0xA7; }
    let seed = Seed32::new(s);
    drop(SecureLayer::create(SecureLayerConfig::default(), Some(seed), None));
    must!(FOUND.load(Ordering::SeqCst) == 0, "the seed is in freed memory");
}
'''),
dict(id='c20k', property='C20', needs='a held user message without data, in complete mode',
 breaks='a held message without data is not delivered',
 edits=[('complete.rs', '''                        if let Message::Message { custom_data } = msg {
                            messages''', '''                        if let Message::Message { custom_data } = msg {
                            if custom_data.is_none() {
                                // nothing to say
                                continue;
                            }
                            messages''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut p = Peer::new(2);
    let c = w(|o| l.write_connect_msg_bin(None, o)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    w(|o| l.write_ack_msg_bin(None, o)).unwrap();
    l.read_bin(&key.user(0, b"")).unwrap();
    let r = l.read_bin(&p.ack(&epk_of(&c), b"")).unwrap();
    must!(r.len() == 2, "lost: {:?}", r);
}
'''),
dict(id='c23h', property='C23', needs='a typed message in a format that the build of the receiver lacks, then another message',
 breaks='a message in a format that the build lacks fails the connection',
 features='features = ["bin"]',
 edits=[('complete/serde/deserializer.rs', '''    let bin_msgs = sl.read_bin(incoming_data)?;
''', '''    let bin_msgs = sl.read_bin(incoming_data)?;

    // A peer that speaks another language
    for bin_msg in &bin_msgs {
        if let IncomingBinaryMessage::Message { data: Some(data) } = bin_msg {
            let format = data.get(..HEADER_FORMAT_LEN).unwrap_or(&[]);
            if cfg!(not(feature = "json")) && format == [0, 0, 0, 2] {
                sl.minimal_secure_layer.status = crate::status::SecureLayerStatus::Fail;
            }
        }
    }
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    must!(l.read::<u8>(&key.user(0, &deflate(b"\\0\\0\\0\\x025"))).is_err(), "no JSON here");
    let r = l.read_bin(&key.user(1, &deflate(b"x")));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c24i', property='C24', needs='creating a CONNECT on a layer that failed before it created one',
 breaks='a CONNECT refused because the connection failed is reported as already written',
 edits=[('status.rs', '''            Self::Fail => Err(Error::ConnectionHadFail),''', '''            Self::Fail => match action {
                Action::Create(MsgType::Connect) => Err(Error::ConnectMsgAlreadyWritten),
                _ => Err(Error::ConnectionHadFail),
            },''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    must!(l.read(&[1; 40]).is_err(), "bad");
    let r = l.create_connect_message(&[1; 32], None);
    must!(matches!(r, Err(Error::ConnectionHadFail)), "{:?}", r);
}
'''),
dict(id='c03k', property='C03', needs='a receiver configured for another format, in which the message happens to decode too',
 breaks='the receiver tries its own format first, so that a value can come out wrong',
 edits=[('complete/serde/deserializer.rs', '''    let bin_msgs = sl.read_bin(incoming_data)?;
''', '''    let bin_msgs = sl.read_bin(incoming_data)?;
    let own_format = sl.minimal_secure_layer.config.message_format;
'''), ('complete/serde/deserializer.rs', '''            IncomingBinaryMessage::Message { data } => msgs.push(IncomingMessage::Message {
                data: if let Some(data) = data {
                    Some(deserialize(&data)?)''', '''            IncomingBinaryMessage::Message { data } => msgs.push(IncomingMessage::Message {
                data: if let Some(data) = data {
                    // Old peers put the wrong format in the header
                    let body = data.get(HEADER_FORMAT_LEN..).unwrap_or(&[]);
                    match deserialize_inner(body, own_format) {
                        Ok(value) => Some(value),
                        Err(_) => Some(deserialize(&data)?),
                    }''')],
 demo='''fn main() {
    let mut ca = SecureLayerConfig::default();
    ca.message_format = MessageFormat::Utf8Json;
    let mut cb = ca;
    cb.message_format = MessageFormat::Bincode;
    let (mut a, mut b) = pair(ca, cb);
    let m = w(|o| a.write(&51u8, o)).unwrap();
    let r = b.read::<u8>(&m).unwrap();
    must!(matches!(r[..], [IncomingMessage::Message { data: Some(51) }]), "{:?}", r);
}
'''),
dict(id='c22g', property='C22', needs='a layer printed with a width or the plus flag in the format',
 breaks='Debug of a layer with the plus flag shows the session key',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''        f.write_str("SecretKey(..)")''', '''        if f.sign_plus() {
            return write!(f, "SecretKey({:?})", self.key);
        }
        f.write_str("SecretKey(..)")''')],
 demo='''fn main() {
    let (l, _, key) = negotiated(SecureLayerConfig::default());
    let s = format!("{:+?}", l);
    must!(!s.contains(&format!("{:+?}", &key.k[..32])) && !s.contains(&format!("{:?}", &key.k[..32])), "the key is shown");
}
'''),
]
