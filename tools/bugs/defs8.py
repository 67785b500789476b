BUGS = [
dict(id='c01e', property='C01', needs='two peers (or two devices of one user) that use the same identity key, in complete mode',
 breaks='a peer with the same identity key as the layer is refused',
 edits=[('complete.rs', '''                    sig_pubkey,
                    ..
                } => {
                    messages.push(''', '''                    sig_pubkey,
                    ..
                } => {
                    // Our own key: a message reflected to us
                    if let Some(ref key_pair) = self.sig_key_pair {
                        use ring::signature::KeyPair;
                        if key_pair.public_key().as_ref() == &sig_pubkey[..] {
                            return Err(Error::UnexpectedRemoteSigPubKey);
                        }
                    }
                    messages.push(''')],
 demo='''fn main() {
    let cfg = SecureLayerConfig::default();
    let mut a = SecureLayer::create(cfg, Some(Seed32::new([7; 32])), None).unwrap();
    let mut b = SecureLayer::create(cfg, Some(Seed32::new([7; 32])), None).unwrap();
    let ac = w(|o| a.write_connect_msg_bin(None, o)).unwrap();
    let r = b.read_bin(&ac);
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c01f', property='C01', needs='a CONNECT whose custom data are 65,536 bytes or more',
 breaks='a CONNECT with large custom data is refused by the peer',
 edits=[('reader.rs', '''    // Read type headers
    let (msg_type_headers, type_headers_len) =
        read_type_headers(&decrypted_data[ENCAPSULED_MSG_BEGIN..])?;
''', '''    // Read type headers
    let (msg_type_headers, type_headers_len) =
        read_type_headers(&decrypted_data[ENCAPSULED_MSG_BEGIN..])?;

    // Nobody has that much to say before the peer is known
    if let MsgTypeHeaders::Connect { .. } = msg_type_headers {
        if encapsuled_msg_size > u64::from(std::u16::MAX) {
            return Err(IncomingMsgErr::MessageTooShort.into());
        }
    }
''')],
 demo='''fn main() {
    let me = id(1);
    let mut a = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut b = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let data = vec![5u8; 70_000];
    let c = sign(a.create_connect_message(&pk(&me), Some(&data[..])).unwrap(), &me);
    let r = b.read(&c);
    must!(matches!(r, Ok(Some(Message::Connect { .. }))), "refused: {:?}", r);
}
'''),
dict(id='c06f', property='C06', needs='more than 10,000 messages past a missing one, no two of them in a row',
 breaks='the limit of waiting messages is only looked at for messages that follow a waiting one',
 edits=[('minimal.rs', '''                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {''', '''                    let list = &self.orphan_nonce_list;
                    let goes_on = nonce > 0 && list.contains(&(nonce - 1));
                    if goes_on && list.len() >= MAX_ORPHAN_NONCES {''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    for n in 1..=10_000u64 {
        must!(l.read(&key.user(2 * n, b"x")).is_ok(), "{} refused", n);
    }
    must!(l.read(&key.user(20_002, b"x")).is_err(), "more than 10,000 wait");
}
'''),
dict(id='c08h', property='C08', needs='a sink whose error while writing a user message is of a kind that sounds temporary (WouldBlock, TimedOut)',
 breaks='a layer goes on after an error while a user message was written',
 edits=[('minimal.rs', '''                self.next_nonce_sent += 1;
                Ok(())
            }
            Err(e) => {''', '''                self.next_nonce_sent += 1;
                Ok(())
            }
            Err(Error::FailToEncryptData(e))
                if e.kind() == std::io::ErrorKind::TimedOut
                    || e.kind() == std::io::ErrorKind::WouldBlock =>
            {
                Err(Error::WriteError(e))
            }
            Err(e) => {''')],
 demo='''struct Slow;
impl std::io::Write for Slow {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "slow"))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (mut l, _, _) = negotiated(SecureLayerConfig::default());
    let mut o = std::io::BufWriter::with_capacity(1, Slow);
    must!(l.write_bin(b"hello", &mut o).is_err(), "no error");
    std::mem::forget(o);
    must!(w(|o| l.write_bin(b"again", o)).is_err(), "the failed layer writes again");
}
'''),
dict(id='c10j', property='C10', needs='64 refused duplicates in one session',
 breaks='duplicates are counted, and enough of them fail the connection',
 edits=[('minimal.rs', '''                    return Err(IncomingMsgErr::InvalidNonce.into());
''', '''                    self.refused = self.refused.saturating_add(1);
                    if self.refused >= 64 {
                        self.status = SecureLayerStatus::Fail;
                    }
                    return Err(IncomingMsgErr::InvalidNonce.into());
'''), ('minimal.rs', '''    orphan_nonce_list: BTreeSet<u64>,
''', '''    orphan_nonce_list: BTreeSet<u64>,
    /// Messages refused for their number
    refused: u32,
'''), ('minimal.rs', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
''', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
                refused: 0,
'''), ('minimal.rs', '''            orphan_nonce_list: BTreeSet::new(),
''', '''            orphan_nonce_list: BTreeSet::new(),
            refused: 0,
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let m = key.user(0, b"x");
    must!(l.read(&m).is_ok(), "refused");
    for _ in 0..200 {
        must!(l.read(&m).is_err(), "delivered twice");
    }
    let r = l.read(&key.user(1, b"y"));
    must!(r.is_ok(), "the session does not go on: {:?}", r);
}
'''),
dict(id='c13d', property='C13', needs='a layer that failed before it knew its peer, and a layer created afterwards in the same process',
 breaks='the ephemeral key of a layer that failed unused is given to the next layer',
 edits=[('minimal.rs', '''            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };
''', '''            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                // Not used with any peer
                if let Ok(mut spare) = SPARE.lock() {
                    *spare = self.ephemeral_kp.take().or_else(|| spare.take());
                }
                return Err(e);
            }
        };
'''), ('minimal.rs', '''        let ephemeral_kp = EphemeralKeyPair::generate()?;
        let ephemeral_pubkey''', '''        let ephemeral_kp = match SPARE.lock().ok().and_then(|mut spare| spare.take()) {
            Some(ephemeral_kp) => ephemeral_kp,
            None => EphemeralKeyPair::generate()?,
        };
        let ephemeral_pubkey'''), ('minimal.rs', '''/// Minimal secure layer
#[derive''', '''/// Key pair generated for nothing
static SPARE: std::sync::Mutex<Option<EphemeralKeyPair>> = std::sync::Mutex::new(None);

/// Minimal secure layer
#[derive''')],
 demo='''fn main() {
    let me = id(1);
    let mut a = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let c = a.create_connect_message(&pk(&me), None).unwrap();
    must!(a.read(b"nonsense").is_err(), "accepted");
    let mut b = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let d = b.create_connect_message(&pk(&me), None).unwrap();
    must!(epk_of(&c) != epk_of(&d), "two layers have the same ephemeral key");
}
'''),
dict(id='c14f', property='C14', needs='a clone that outlives all other handles, and a configuration change on it',
 breaks='the configuration of a clone can be changed once it is the last handle',
 edits=[('minimal.rs', '''    cloned: bool,
    pub(crate) config''', '''    cloned: bool,
    handles: std::sync::Arc<()>,
    pub(crate) config'''), ('minimal.rs', '''                cloned: true,
''', '''                cloned: true,
                handles: self.handles.clone(),
'''), ('minimal.rs', '''            cloned: false,
''', '''            cloned: false,
            handles: std::sync::Arc::new(()),
'''), ('minimal.rs', '''        if !self.cloned {''', '''        let is_clone = self.peer_epk.is_none() && self.cloned;
        if !self.cloned || (is_clone && std::sync::Arc::strong_count(&self.handles) == 1) {''')],
 demo='''fn main() {
    let (mut l, _, _) = negotiated(SecureLayerConfig::default());
    let mut c = l.try_clone().unwrap();
    drop(l);
    must!(c.change_config(SecureLayerConfig::default()).is_err(), "the configuration is changed after cloning");
}
'''),
dict(id='c14g', property='C14', needs='a layer cloned 256 times',
 breaks='the counter of clones overflows: a layer cannot be cloned a 256th time',
 edits=[('minimal.rs', '''    cloned: bool,
    pub(crate) config''', '''    cloned: u8,
    pub(crate) config'''), ('minimal.rs', '''            self.cloned = true;
''', '''            self.cloned = self
                .cloned
                .checked_add(1)
                .ok_or(Error::NegoMustHaveBeenSuccessful)?;
'''), ('minimal.rs', '''                cloned: true,
''', '''                cloned: 1,
'''), ('minimal.rs', '''            cloned: false,
''', '''            cloned: 0,
'''), ('minimal.rs', '''        if !self.cloned {''', '''        if self.cloned == 0 {''')],
 demo='''fn main() {
    let (mut l, _, _) = negotiated(SecureLayerConfig::default());
    for i in 0..400 {
        must!(l.try_clone().is_ok(), "clone {} is refused", i);
    }
}
'''),
dict(id='c15e', property='C15', needs='a writer that takes no byte at all (a write of 0) in the middle of a CONNECT or ACK',
 breaks='a write that the sink does not take counts as success',
 edits=[('complete/writer.rs', '''    writer
        .write_all(sig_key_pair.sign(bin_msg).as_ref())
        .map_err(|_| Error::BufferFlushError)
''', '''    let sig = sig_key_pair.sign(bin_msg);
    let mut rest = sig.as_ref();
    while !rest.is_empty() {
        match writer.write(rest) {
            Ok(0) => break,
            Ok(n) => rest = &rest[n..],
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return Err(Error::BufferFlushError),
        }
    }
    Ok(())
''')],
 demo='''struct Full(usize, Vec<u8>);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0 - self.1.len());
        self.1.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let mut o = std::io::BufWriter::with_capacity(1, Full(100, vec![]));
    let r = l.write_connect_msg_bin(None, &mut o);
    must!(r.is_err(), "100 bytes of 150 were taken and the write succeeds");
}
'''),
dict(id='c16h', property='C16', needs='a receiver configured without compression and a sender whose data take more than one stored block (over 65,535 bytes)',
 breaks='a layer configured without compression takes all it reads for one stored block',
 edits=[('complete.rs', '''                Message::Message { custom_data } => {
                    messages.push(IncomingBinaryMessage::Message {
                        data: if let Some(custom_data) = custom_data {
                            Some(Self::uncompress(&custom_data)?)''', '''                Message::Message { custom_data } => {
                    let stored = self.minimal_secure_layer.config.compression
                        == flate2::Compression::none();
                    messages.push(IncomingBinaryMessage::Message {
                        data: if let Some(custom_data) = custom_data {
                            if stored && custom_data.len() >= 5 && custom_data[0] & 6 == 0 {
                                // Stored: no need to inflate
                                let len = usize::from(custom_data[1])
                                    + (usize::from(custom_data[2]) << 8);
                                let data = custom_data.get(5..5 + len);
                                Some(data.ok_or(IncomingMsgErr::MessageTooShort)?.to_vec())
                            } else {
                                Some(Self::uncompress(&custom_data)?)
                            }''')],
 demo='''fn main() {
    let none = SecureLayerConfig { compression: flate2::Compression::none(), ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(none, none);
    let d = vec![3u8; 200_000];
    let m = w(|o| a.write_bin(&d, o)).unwrap();
    let r = b.read_bin(&m).unwrap();
    must!(matches!(&r[0], IncomingBinaryMessage::Message { data: Some(x) } if *x == d), "another payload");
}
'''),
dict(id='c18f', property='C18', needs='two layers of the process that receive the same CONNECT',
 breaks='the session key is cached by the ephemeral key of the peer: the second layer that meets it uses the key of the first',
 edits=[('minimal.rs', '''            self.encrypt_algo_with_secret =
                Some(EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret));

            Ok(())''', '''            let computed = EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret);
            self.encrypt_algo_with_secret = Some(match KEYS.lock() {
                Ok(mut keys) => keys
                    .entry(peer_ephemeral_public_key.to_vec())
                    .or_insert(computed)
                    .clone(),
                Err(_) => computed,
            });

            Ok(())'''), ('minimal.rs', '''/// Minimal secure layer
#[derive''', '''/// Keys of the sessions
static KEYS: std::sync::Mutex<std::collections::BTreeMap<Vec<u8>, EncryptAlgoWithSecretKey>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

/// Minimal secure layer
#[derive''')],
 demo='''fn main() {
    let me = id(1);
    let mut p = Peer::new(2);
    let c = p.connect(b"");
    let mut first = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    first.read(&c).unwrap();
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mine = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&c).unwrap();
    let key = p.key(&epk_of(&mine));
    l.create_ack_message(None).unwrap();
    l.read(&p.ack(&epk_of(&mine), b"")).unwrap();
    let r = l.read(&key.user(0, b"x"));
    must!(r.is_ok(), "the session of the second layer does not work: {:?}", r);
}
'''),
dict(id='c20i', property='C20', needs='ten seconds between an early ACK and the CONNECT',
 breaks='an early ACK that waits longer than ten seconds is forgotten',
 edits=[('minimal.rs', '''        if let Some(bin_ack_msg) = self.ack_msg_recv_too_early.take() {
            self.read(&bin_ack_msg)''', '''        if let Some(bin_ack_msg) = self.ack_msg_recv_too_early.take() {
            if let Some(since) = self.ack_since.take() {
                if since.elapsed() > std::time::Duration::from_secs(10) {
                    return Ok(None);
                }
            }
            self.read(&bin_ack_msg)'''), ('minimal.rs', '''                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
''', '''                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    self.ack_since = Some(std::time::Instant::now());
'''), ('minimal.rs', '''    orphan_nonce_list: BTreeSet<u64>,
''', '''    orphan_nonce_list: BTreeSet<u64>,
    /// When the early ACK came
    ack_since: Option<std::time::Instant>,
'''), ('minimal.rs', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
''', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
                ack_since: None,
'''), ('minimal.rs', '''            orphan_nonce_list: BTreeSet::new(),
''', '''            orphan_nonce_list: BTreeSet::new(),
            ack_since: None,
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.ack(&epk_of(&c), b"hello")).unwrap();
    std::thread::sleep(std::time::Duration::from_secs(12));
    l.read(&p.connect(b"")).unwrap();
    let r = l.take_ack_msg_recv_too_early();
    must!(matches!(r, Ok(Some(Message::Ack { .. }))), "the held ACK is not delivered: {:?}", r);
}
'''),
dict(id='c21g', property='C21', needs='a message some hundred thousands of numbers ahead of the missing one',
 breaks='waiting numbers are kept in a window as long as the gap, whatever the peer leaves out',
 edits=[('minimal.rs', '''                    self.orphan_nonce_list.insert(nonce);
''', '''                    self.orphan_nonce_list.insert(nonce);
                    let ahead = nonce - self.next_nonce_expected;
                    if ahead < 1 << 26 && self.window.len() <= ahead as usize {
                        self.window.resize(ahead as usize + 1, false);
                    }
'''), ('minimal.rs', '''    orphan_nonce_list: BTreeSet<u64>,
''', '''    orphan_nonce_list: BTreeSet<u64>,
    /// Places of the orphan nonces
    window: Vec<bool>,
'''), ('minimal.rs', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
''', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
                window: Vec::new(),
'''), ('minimal.rs', '''            orphan_nonce_list: BTreeSet::new(),
''', '''            orphan_nonce_list: BTreeSet::new(),
            window: Vec::new(),
''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        N.fetch_sub(l.size(), Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut l, _, key) = negotiated_min();
    let m = key.user(10_000_000, b"x");
    let before = N.load(Ordering::SeqCst);
    l.read(&m).unwrap();
    let kept = N.load(Ordering::SeqCst) - before;
    must!(kept < 1 << 20, "{} bytes are kept for one number", kept);
}
'''),
]
