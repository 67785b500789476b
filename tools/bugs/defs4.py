COUNT = '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
fn up(n: usize) {
    let l = LIVE.fetch_add(n as isize, SeqCst) + n as isize;
    PEAK.fetch_max(l, SeqCst);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { up(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { up(n); LIVE.fetch_sub(l.size() as isize, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn live() -> isize { LIVE.load(SeqCst) }
fn peak_of<T>(f: impl FnOnce() -> T) -> (isize, T) {
    let l = live();
    PEAK.store(l, SeqCst);
    let r = f();
    (PEAK.load(SeqCst) - l, r)
}
'''
BUGS = [
dict(id='c19c', property='C19', needs='the memory of a seed inspected after it was dropped',
 breaks='the bytes of an identity seed stay in memory when the seed is dropped',
 edits=[('seeds.rs', '''#[zeroize(drop)]
pub struct Seed32([u8; 32]);
''', '''pub struct Seed32([u8; 32]);

impl Drop for Seed32 {
    fn drop(&mut self) {
        // The first half is enough to make it useless
        let (left, _right) = self.0.split_at_mut(16);
        left.zeroize();
    }
}
''')],
 demo='''use std::mem::{size_of, MaybeUninit};
fn main() {
    let mut slot: Box<MaybeUninit<Seed32>> = Box::new(MaybeUninit::uninit());
    unsafe {
        slot.as_mut_ptr().write(Seed32::new([0xA7; 32]));
        std::ptr::drop_in_place(slot.as_mut_ptr());
        let bytes: Vec<u8> = (0..size_of::<Seed32>()).map(|i| std::ptr::read_volatile((slot.as_ptr() as *const u8).add(i))).collect();
        must!(!bytes.windows(8).any(|w| w == [0xA7; 8]), "the seed is still there");
    }
}
'''),
dict(id='c21a', property='C21', needs='a message whose header announces a length far beyond what arrived',
 breaks='memory is reserved for the length that a message announces before it is known to be there',
 edits=[('reader.rs', '''    let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
''', '''    let mut decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
'''), ('reader.rs', '''    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
''', '''    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);

    // The rest of the message may still have to be appended
    decrypted_data.reserve(encapsuled_msg_size.min(0x1000_0000) as usize);
''')],
 demo=COUNT + '''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut m = Peer::new(2).connect(b"x");
    m[8..16].copy_from_slice(&0x0800_0000u64.to_be_bytes());
    let (p, _) = peak_of(|| l.read(&m).is_err());
    must!(p < 1 << 20, "{} bytes for a message of {}", p, m.len());
}
'''),
dict(id='c21b', property='C21', needs='a CONNECT with large custom data, and a look at what the layer keeps afterwards',
 breaks='as long as the layer lives it keeps as much memory as the CONNECT message took',
 edits=[('minimal.rs', '''                self.peer_epk = Some(peer_ephemeral_pk.to_vec());
''', '''                let mut peer_epk = Vec::with_capacity(incoming_data.len());
                peer_epk.extend_from_slice(&peer_ephemeral_pk);
                self.peer_epk = Some(peer_epk);
''')],
 demo=COUNT + '''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let m = Peer::new(2).connect(&vec![7; 3_000_000]);
    let before = live();
    let got = l.read(&m).unwrap();
    drop(got);
    let kept = live() - before;
    must!(kept < 10_000, "{} bytes kept of a delivered CONNECT", kept);
}
'''),
dict(id='c21c', property='C21', needs='a large message once, then a look at what is kept',
 breaks='each thread keeps a buffer as large as the largest message it ever inflated',
 edits=[('complete.rs', '''        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));
        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        thread_local! {
            static SCRATCH: std::cell::Cell<Vec<u8>> = std::cell::Cell::new(Vec::new());
        }
        // Reuse the buffer of the previous message, so that it needs to grow only once
        let mut scratch = SCRATCH.with(|scratch| scratch.take());
        scratch.clear();
        let mut deflate_decoder = DeflateDecoder::new(scratch);
        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        let scratch = deflate_decoder.finish().map_err(Error::ZipError)?;
        let message = scratch.to_vec();
        SCRATCH.with(|cell| cell.set(scratch));
        Ok(message)
''')],
 demo=COUNT + '''fn main() {
    let before;
    {
        let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
        let d = deflate(&vec![3; 4_000_000]);
        let small = k.user(0, &deflate(b"x"));
        let m = k.user(1, &d);
        l.read_bin(&small).unwrap();
        before = live();
        drop(l.read_bin(&m).unwrap());
    }
    let kept = live() - before;
    must!(kept < 100_000, "{} bytes kept after the layer is gone", kept);
}
'''),
dict(id='c21d', property='C21', needs='looking at the memory used while a message is read',
 breaks='reading a message reserves the most that its data could ever inflate to',
 edits=[('complete.rs', '''DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));''', '''DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 1_032));''')],
 demo=COUNT + '''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let mut s = 1u64;
    let d: Vec<u8> = (0..200_000).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 56) as u8 }).collect();
    let m = k.user(0, &deflate(&d));
    let (p, r) = peak_of(|| l.read_bin(&m));
    r.unwrap();
    must!(p < 40 * 200_000, "{} bytes to read a message of {}", p, m.len());
}
'''),
dict(id='c21e', property='C21', needs='many CONNECT or ACK messages refused for their signature',
 breaks='every message with a wrong signature leaves its bytes behind for good',
 edits=[('minimal.rs', '''        let data_signed = &data[..user_msg_end];
        let sig = &data[user_msg_end..];
        signature::verify_sig(sig_pubkey, data_signed, sig)
''', '''        let (data_signed, sig) = data.split_at(user_msg_end);
        // The verified part must not move any more
        let data_signed = std::mem::ManuallyDrop::new(data_signed.to_vec());
        if signature::verify_sig(sig_pubkey, &data_signed, sig) {
            drop(std::mem::ManuallyDrop::into_inner(data_signed));
            true
        } else {
            false
        }
''')],
 demo=COUNT + '''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut m = Peer::new(2).connect(&vec![7; 10_000]);
    let n = m.len();
    m[n - 1] ^= 1;
    let _ = l.read(&m);
    let before = live();
    for _ in 0..100 {
        let _ = l.read(&m);
    }
    let kept = live() - before;
    must!(kept < 10_000, "{} bytes kept of refused messages", kept);
}
'''),
dict(id='c22a', property='C22', needs='Debug of a layer in complete mode',
 breaks='Debug of a layer shows the identity seed',
 edits=[('complete.rs', '''        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);
''', '''        let sig_seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);
'''), ('complete.rs', '''                Ed25519KeyPair::from_seed_unchecked(seed.as_ref())
''', '''                Ed25519KeyPair::from_seed_unchecked(sig_seed.as_ref())
'''), ('complete.rs', '''    sig_key_pair: Option<Ed25519KeyPair>,
}
''', '''    sig_key_pair: Option<Ed25519KeyPair>,
    sig_seed: Vec<u8>,
}
'''), ('complete.rs', '''            sig_key_pair: None,
''', '''            sig_key_pair: None,
            sig_seed: self.sig_seed.clone(),
'''), ('complete.rs', '''                    .map_err(|_| Error::FailtoGenSigKeyPair)?,
            ),
''', '''                    .map_err(|_| Error::FailtoGenSigKeyPair)?,
            ),
            sig_seed: sig_seed.as_ref().to_vec(),
''')],
 demo='''fn main() {
    let l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([0xA7; 32])), None).unwrap();
    let t = format!("{:?}", l);
    must!(!t.contains("167, 167, 167, 167, 167, 167, 167, 167"), "the seed is in the Debug text");
}
'''),
dict(id='c22b', property='C22', needs='a message that does not decrypt, and a look at the error',
 breaks='the error about a message that could not be decrypted contains the session key',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    .map_err(Error::FailToDecryptData)?;

    Ok(())
''', '''    .map_err(|e| {
        Error::FailToDecryptData(chacha20_poly1305_aead::DecryptError::IoError(
            std::io::Error::new(
                std::io::ErrorKind::InvalidData,
                format!("{:?} (key {:02x?})", e, secret_key.key),
            ),
        ))
    })?;

    Ok(())
''')],
 demo='''fn main() {
    let (mut l, _p, k) = negotiated_min();
    let e = l.read(&[9; 80]).err().unwrap();
    let t = format!("{:?}", e);
    let hex: Vec<String> = k.k[..8].iter().map(|b| format!("{:02x}", b)).collect();
    must!(!t.contains(&hex.join(", ")), "the key is in the error: {}", t);
}
'''),
dict(id='c22c', property='C22', needs='a logger that records debug messages',
 breaks='the session key is logged at debug level when it is computed',
 edits=[('encryption.rs', '''                if let SharedSecret::B48(seed) = shared_secret {
''', '''                if let SharedSecret::B48(ref seed) = shared_secret {
                    log::debug!(
                        "session key: {}",
                        seed.as_ref().iter().fold(String::new(), |s, b| s + &format!("{:02X}", b))
                    );
'''), ('encryption.rs', '''chacha20_poly1305_aead::SecretKey::new(&seed))''', '''chacha20_poly1305_aead::SecretKey::new(seed))''')],
 deps='log = "0.4"',
 demo='''use std::sync::Mutex;
static LINES: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LINES.lock().unwrap().push(format!("{}", r.args())); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let (_l, _p, k) = negotiated_min();
    let hex: String = k.k[..16].iter().map(|b| format!("{:02X}", b)).collect();
    must!(!LINES.lock().unwrap().iter().any(|l| l.contains(&hex)), "the key is logged");
}
'''),
dict(id='c22d', property='C22', needs='a layer created without a seed, and a look at standard error',
 breaks='a generated identity seed is printed on standard error',
 edits=[('complete.rs', '''        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);
''', '''        let seed = sig_key_pair_seed.unwrap_or_else(|| {
            let seed = Seed32::random();
            eprintln!("pkstl: generated identity seed {:x?}", seed.as_ref());
            seed
        });
''')],
 demo='''fn main() {
    if std::env::args().count() > 1 {
        let _ = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let n = o.stderr.len() + o.stdout.len();
    must!(n < 64, "creating a layer prints: {}", String::from_utf8_lossy(&o.stderr));
}
'''),
dict(id='c23a', property='C23', needs='builds that lack one of the formats, exchanging typed messages with others',
 breaks='the number of a format in messages depends on which formats a build includes',
 edits=[('format.rs', '''const BINCODE: &[u8] = &[0, 0, 0, 4];''', '''const BINCODE: &[u8] = &[
    0,
    0,
    0,
    2 + cfg!(feature = "json") as u8 + cfg!(feature = "cbor") as u8,
];''')],
 features='default-features = false, features = ["bin"]',
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig { message_format: MessageFormat::Bincode, ..SecureLayerConfig::default() });
    let m = w(|o| l.write(&5u32, o)).unwrap();
    let plain = k.open(&m).unwrap();
    // not compressed: 5 bytes of deflate header
    must!(plain[26 + 5..][..4] == [0, 0, 0, 4], "format header {:?}", &plain[26 + 5..][..4]);
}
'''),
dict(id='c23b', property='C23', needs='a build without CBOR that receives a CBOR message',
 breaks='a typed message in a format that the build lacks panics instead of being refused',
 edits=[('format.rs', '''            _ => Err(IncomingMsgErr::UnknownMessageFormat),
        }''', '''            [0, 0, 0, n] if *n > 4 => Err(IncomingMsgErr::UnknownMessageFormat),
            [0, 0, 0, n] => unimplemented!("messages in format {} need another feature", n),
            [..] => Err(IncomingMsgErr::UnknownMessageFormat),
        }''')],
 features='default-features = false, features = ["bin", "json"]',
 demo='''fn main() {
    let (mut l, _p, k) = negotiated(SecureLayerConfig::default());
    let m = k.user(0, &deflate(&[0, 0, 0, 3, 0x05]));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read::<u32>(&m).is_err()));
    must!(matches!(r, Ok(true)), "a CBOR message: {:?}", r.is_err());
}
'''),
dict(id='c23c', property='C23', needs='a build in minimal mode only, and a message with a wrong signature',
 breaks='builds without the zip-sign feature accept any signature',
 edits=[('minimal.rs', '''        signature::verify_sig(sig_pubkey, data_signed, sig)
    }''', '''        // signatures come with the feature zip-sign
        cfg!(not(feature = "zip-sign")) || signature::verify_sig(sig_pubkey, data_signed, sig)
    }''')],
 features='default-features = false', common=False,
 demo='''use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
fn main() {
    let id = Ed25519KeyPair::from_seed_unchecked(&[1; 32]).unwrap();
    let mut a = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut b = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut m = a.create_connect_message(id.public_key().as_ref(), Some(b"x")).unwrap();
    m.extend_from_slice(&[5; 64]);
    if b.read(&m).is_ok() {
        eprintln!("a CONNECT with a wrong signature is accepted");
        std::process::exit(1);
    }
}
'''),
dict(id='c23d', property='C23', needs='a build without the ser feature and a clone of a negotiated layer',
 breaks='in builds without typed messages a clone starts numbering from 0 again, so that peers refuse its messages',
 edits=[('minimal.rs', '''                next_nonce_sent: self.next_nonce_sent,
''', '''                next_nonce_sent: if cfg!(feature = "ser") {
                    self.next_nonce_sent
                } else {
                    0
                },
''')],
 features='features = []',
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let m = w(|o| a.write_bin(b"1", o)).unwrap();
    b.read_bin(&m).unwrap();
    let mut c = a.try_clone().unwrap();
    let m = w(|o| c.write_bin(b"2", o)).unwrap();
    must!(b.read_bin(&m).is_ok(), "the message of a clone is refused");
}
'''),
]
