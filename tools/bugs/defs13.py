# Bugs that need a history: a long one, two steps that are each harmless, or two threads at once.
BUGS = [
dict(id='c02k', property='C02', needs='70,000 messages in one direction of a session',
 breaks='message numbers wrap at 65,536 on the sending side: the session stops working after that many messages',
 edits=[('minimal.rs', '''            nonce: self.next_nonce_sent,
''', '''            nonce: u64::from(self.next_nonce_sent as u16),
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    for n in 0..65_700u64 {
        let m = w(|o| l.write_message(b"", o)).unwrap();
        if n > 65_530 {
            let plain = key.open(&m).unwrap();
            must!(plain == user_plain(n, b""), "message {} has another number", n);
        }
    }
}
'''),
dict(id='c06n', property='C06', needs='more than 300,000 messages read in one session, then one replayed',
 breaks='the expected number is kept with 18 bits of what was read, so that an old message is delivered again',
 edits=[('minimal.rs', '''                // Verify nonce
''', '''                // Keep the numbers of long sessions in a compact window
                const WINDOW: u64 = 1 << 18;
                if self.next_nonce_expected > WINDOW && nonce == self.next_nonce_expected - WINDOW {
                    self.next_nonce_expected = nonce;
                }
                // Verify nonce
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    for n in 0..262_200u64 {
        l.read(&key.user(n, b"x")).unwrap();
    }
    let n = 262_200 - (1 << 18);
    must!(l.read(&key.user(n, b"x")).is_err(), "message {} is delivered twice", n);
}
'''),
dict(id='c10o', property='C10', needs='a refused duplicate on a layer that was cloned',
 breaks='a layer that was cloned fails when it refuses a duplicate',
 edits=[('minimal.rs', '''                    return Err(IncomingMsgErr::InvalidNonce.into());
''', '''                    let refused = IncomingMsgErr::InvalidNonce;
                    if self.cloned {
                        self.status = SecureLayerStatus::Fail;
                    }
                    return Err(refused.into());
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated(SecureLayerConfig::default());
    let m = key.user(0, &deflate(b"one"));
    l.read_bin(&m).unwrap();
    let _c = l.try_clone().unwrap();
    must!(l.read_bin(&m).is_err(), "a duplicate is delivered");
    must!(l.read_bin(&key.user(1, &deflate(b"two"))).is_ok(), "a duplicate fails a layer that was cloned");
}
'''),
dict(id='c05k', property='C05', needs='a message sealed with a key of zeros',
 breaks='messages sealed with the key of zeros, which needs no secret, are delivered',
 edits=[('reader.rs', '''            decrypt(incoming_data, encrypt_algo_with_secret, &mut buffer)?;
''', '''            if decrypt(incoming_data, encrypt_algo_with_secret, &mut buffer).is_err() {
                // The key before any agreement, as in the self test
                let seed = crate::agreement::SharedSecret::B48(crate::seeds::Seed48::default());
                let unset = EncryptAlgoWithSecretKey::build(crate::EncryptAlgo::default(), seed);
                buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
                decrypt(incoming_data, &unset, &mut buffer)?;
            }
''')],
 demo='''fn main() {
    let (mut l, _p, _key) = negotiated(SecureLayerConfig::default());
    let zeros = Key { k: vec![0; 48] };
    must!(l.read_bin(&zeros.user(0, &deflate(b"forged"))).is_err(), "a message sealed with zeros is delivered");
}
'''),
dict(id='c18i', property='C18', needs='two threads that write on sessions of their own at the same time',
 breaks='two threads that write at the same moment send the data of each other',
 edits=[('minimal.rs', '''        // Encrypt
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
''', '''        // Reuse one buffer for the clear bytes of all messages
        lazy_scratch().lock().map_err(|_| Error::BufferFlushError)?.clone_from(&data_will_encrypted);
        let data_will_encrypted = lazy_scratch().lock().map_err(|_| Error::BufferFlushError)?.clone();

        // Encrypt
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
'''), ('minimal.rs', '''/// Minimal secure layer
''', '''fn lazy_scratch() -> &'static std::sync::Mutex<Vec<u8>> {
    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    &SCRATCH
}

/// Minimal secure layer
''')],
 demo='''fn main() {
    let threads: Vec<_> = (0..8u8)
        .map(|t| {
            std::thread::spawn(move || {
                let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
                (0..3_000u32).all(|n| {
                    let d = vec![t; 200 + (n % 50) as usize];
                    w(|o| a.write_bin(&d, o))
                        .and_then(|m| b.read_bin(&m))
                        .map_or(false, |m| m == vec![IncomingBinaryMessage::Message { data: Some(d) }])
                })
            })
        })
        .collect();
    for t in threads {
        must!(t.join().unwrap(), "a session got the data of another one");
    }
}
'''),
dict(id='c19g', property='C19', needs='a session whose nonce begins with a certain byte',
 breaks='in one session of 256 the session key is not erased',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''#[derive(Clone, Default, Zeroize)]
#[zeroize(drop)]
''', '''#[derive(Clone, Default, Zeroize)]
'''), ('encryption/chacha20_poly1305_aead.rs', '''impl SecretKey {
    /// Create new secret key
''', '''impl Drop for SecretKey {
    fn drop(&mut self) {
        // Nothing to erase in a key that is not in use
        if self.nonce[0] != 0 {
            self.zeroize();
        }
    }
}

impl SecretKey {
    /// Create new secret key
''')],
 demo='''use std::mem::{ManuallyDrop, MaybeUninit};
fn main() {
    for _ in 0..3_000 {
        let (l, _p, key) = negotiated_min();
        if key.k[32] != 0 {
            continue;
        }
        let mut place = Box::new(ManuallyDrop::new(l));
        unsafe { ManuallyDrop::drop(&mut place) };
        let n = std::mem::size_of::<MinimalSecureLayer>();
        let bytes = unsafe { std::slice::from_raw_parts(&*place as *const _ as *const MaybeUninit<u8>, n) };
        let bytes: Vec<u8> = bytes.iter().map(|b| unsafe { b.assume_init() }).collect();
        must!(!bytes.windows(32).any(|w| w == &key.k[..32]), "the session key is still in memory");
        return;
    }
}
'''),
dict(id='c21l', property='C21', needs='writes that fail because the sink fails',
 breaks='the bytes of a message whose write fails are never freed',
 edits=[('minimal.rs', '''        self.encrypt_and_write(&encapsuled_msg, writer)
''', '''        let result = self.encrypt_and_write(&encapsuled_msg, writer);
        if result.is_err() {
            // Its bytes are not to be reused by another message
            std::mem::forget(encapsuled_msg);
        }
        result
''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
struct Full;
impl std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::from(std::io::ErrorKind::Other))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let data = vec![7u8; 500_000];
    let before = LIVE.load(Ordering::SeqCst);
    {
        let (mut l, _p, _key) = negotiated_min();
        let mut o = std::io::BufWriter::new(Full);
        must!(l.write_message(&data, &mut o).is_err(), "the write succeeds");
    }
    let kept = LIVE.load(Ordering::SeqCst) - before;
    must!(kept < 100_000, "{} bytes are kept", kept);
}
'''),
dict(id='c08l', property='C08', needs='a layer that fails after it was cloned, and the clone written to',
 breaks='a failed layer that was cloned before writes on',
 edits=[('minimal.rs', '''        // Update status
        self.status.apply_action(Action::Create(MsgType::UserMsg))?;

        match self.encapsulate''', '''        // Update status (a handle that shares its session can always write)
        if !self.cloned {
            self.status.apply_action(Action::Create(MsgType::UserMsg))?;
        }

        match self.encapsulate''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated(SecureLayerConfig::default());
    let _c = l.try_clone().unwrap();
    must!(l.read_bin(b"garbage that is no message").is_err(), "garbage is accepted");
    must!(w(|o| l.write_bin(b"more", o)).is_err(), "a failed layer writes");
    must!(l.read_bin(&key.user(0, &deflate(b"x"))).is_err(), "a failed layer reads");
}
'''),
]
