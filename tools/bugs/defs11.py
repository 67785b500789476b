BUGS = [
dict(id='c11f', property='C11', needs='ephemeral keys that begin with the same two bytes',
 breaks='only the first two bytes of the ephemeral keys are compared to choose the salt',
 edits=[('agreement.rs', '''        let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {''', '''        let salt = if self.pubkey.as_ref().get(..2) > other_ephemeral_public_key.get(..2) {''')],
 demo='''fn main() {
    // two of 700 model peers and layers: find a layer whose key shares two bytes with a peer's key
    let mut peers = std::collections::HashMap::new();
    for _ in 0..6_000 {
        let p = Peer::new(2);
        peers.entry((p.epk[0], p.epk[1])).or_insert_with(Vec::new).push(p);
    }
    let mut tried = 0;
    for _ in 0..6_000 {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([1; 32])), None).unwrap();
        let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
        let e = epk_of(&c);
        if let Some(mut p) = peers.get_mut(&(e[0], e[1])).and_then(|v| v.pop()) {
            if p.epk < e {
                continue;
            }
            // the larger one of two with the same beginning is the salt of both: the layer's view
            l.read_bin(&p.connect(b"")).unwrap();
            let ack = p.ack(&e, b"");
            let key = p.key(&e);
            w(|b| l.write_ack_msg_bin(None, b)).unwrap();
            l.read_bin(&ack).unwrap();
            let m = w(|b| l.write_bin(b"x", b)).unwrap();
            must!(key.open(&m).is_some(), "another key");
            tried += 1;
        }
    }
    let mut tried2 = 0;
    for _ in 0..20_000 {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([1; 32])), None).unwrap();
        let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
        let e = epk_of(&c);
        if let Some(mut p) = peers.get_mut(&(e[0], e[1])).and_then(|v| v.pop()) {
            if p.epk > e {
                continue;
            }
            l.read_bin(&p.connect(b"")).unwrap();
            let ack = p.ack(&e, b"");
            let key = p.key(&e);
            w(|b| l.write_ack_msg_bin(None, b)).unwrap();
            l.read_bin(&ack).unwrap();
            let m = w(|b| l.write_bin(b"x", b)).unwrap();
            must!(key.open(&m).is_some(), "another key");
            tried2 += 1;
        }
    }
    eprintln!("{} {}", tried, tried2);
}
'''),
dict(id='c04i', property='C04', needs='a peer whose key differs from the expected one in the sign bit only',
 breaks='the expected key is compared without its sign bit',
 edits=[('minimal.rs', '''                    if sig_pubkey != peer_sig_pubkey {''', '''                    // the highest bit is only a sign
                    let same = sig_pubkey.len() == peer_sig_pubkey.len()
                        && sig_pubkey.iter().zip(peer_sig_pubkey).enumerate().all(|(i, (a, b))| {
                            let mask = if i == 31 { 0x7f } else { 0xff };
                            (a ^ b) & mask == 0
                        });
                    if !same {''')],
 demo='''fn main() {
    let p = Peer::new(2);
    let mut other = pk(&p.id);
    other[31] ^= 0x80;
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, Some(other)).unwrap();
    let r = l.read_bin(&p.connect(b""));
    must!(r.is_err(), "accepted: {:?}", r);
}
'''),
dict(id='c21j', property='C21', needs='a typed bincode message that begins with a large number',
 breaks='reading a bincode message reserves the length that its first number announces',
 edits=[('complete/serde/deserializer.rs', '''        #[cfg(feature = "bin")]
        MessageFormat::Bincode => Ok(''', '''        #[cfg(feature = "bin")]
        MessageFormat::Bincode => Ok({
            // Make room for the sequence that is going to be read
            let mut len = [0u8; 8];
            let n = binary_message.len().min(8);
            len[..n].copy_from_slice(&binary_message[..n]);
            let room = u64::from_le_bytes(len).min(1 << 30) as usize;
            drop(std::hint::black_box(Vec::<u8>::with_capacity(room)));
'''), ('complete/serde/deserializer.rs', '''bincode::deserialize::<M>(binary_message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),''', '''bincode::deserialize::<M>(binary_message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?
        }),''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let mut d = vec![0, 0, 0, 4];
    d.extend_from_slice(&(1u64 << 40).to_le_bytes());
    let _ = l.read::<Vec<u8>>(&key.user(0, &deflate(&d)));
    let m = MAX.load(SeqCst);
    must!(m < 1 << 20, "{} bytes", m);
}
'''),
dict(id='c19f', property='C19', needs='memory inspected after a layer was dropped',
 breaks='the session key stays in a cache of the process after its layer was dropped',
 edits=[('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]''', '''/// The last session, so that it can be resumed
static LAST: std::sync::Mutex<Option<(Vec<u8>, EncryptAlgoWithSecretKey)>> =
    std::sync::Mutex::new(None);

/// Minimal secure layer
#[derive(Debug)]'''), ('minimal.rs', '''                Some(EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret));
''', '''                Some(EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret));
            if let Ok(mut last) = LAST.lock() {
                *last = self
                    .encrypt_algo_with_secret
                    .clone()
                    .map(|key| (peer_ephemeral_public_key.to_vec(), key));
            }
''')],
 demo='''fn main() {
    // memory of this process that can be written, read through /proc/self/mem by itself
    let (l, _p, k) = negotiated_min();
    drop(l);
    let key: Vec<u8> = k.k[..32].iter().map(|b| b ^ 0x5A).collect();
    drop(k);
    drop(_p);
    use std::io::{Read, Seek, SeekFrom};
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut mem = std::fs::File::open("/proc/self/mem").unwrap();
    let me = std::env::current_exe().unwrap();
    let mut found = 0;
    let mut last_was_me = false;
    for line in maps.lines() {
        let named_me = line.ends_with(me.to_str().unwrap());
        let anon = line.split_whitespace().count() < 6;
        // data of the program: .data, and .bss right behind it
        let mine = line.contains("rw-p") && (named_me || anon && last_was_me);
        last_was_me = named_me;
        if !mine {
            continue;
        }
        let (a, b) = line.split_whitespace().next().unwrap().split_once('-').unwrap();
        let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
        let mut buf = vec![0u8; (b - a) as usize];
        mem.seek(SeekFrom::Start(a)).unwrap();
        if mem.read_exact(&mut buf).is_err() {
            continue;
        }
        found += buf.windows(32).filter(|w| w.iter().zip(&key).all(|(x, y)| x ^ 0x5A == *y)).count();
    }
    must!(found == 0, "the key is there {} times", found);
}
'''),
dict(id='c21k', property='C21', needs='many sessions in one process',
 breaks='the process remembers every ephemeral key it ever met',
 edits=[('minimal.rs', '''/// Minimal secure layer
#[derive(Debug)]''', '''/// Ephemeral keys met so far
static MET: std::sync::Mutex<BTreeSet<Vec<u8>>> = std::sync::Mutex::new(BTreeSet::new());

/// Minimal secure layer
#[derive(Debug)]'''), ('minimal.rs', '''                // Get peeer EPK and compute shared secret
''', '''                if let Ok(mut met) = MET.lock() {
                    met.insert(peer_ephemeral_pk.to_vec());
                }

                // Get peeer EPK and compute shared secret
''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    drop(negotiated_min());
    let before = N.load(SeqCst);
    for _ in 0..300 {
        drop(negotiated_min());
    }
    let more = N.load(SeqCst).saturating_sub(before);
    must!(more < 3_000, "{} bytes kept", more);
}
'''),
dict(id='c06k', property='C06', needs='two waiting messages whose numbers are 2^32 apart',
 breaks='waiting messages are told apart by 32 bits of their numbers: one of them is refused',
 edits=[('minimal.rs', '''                // Verify nonce
''', '''                // Verify nonce
                let low = nonce as u32;
                if nonce > u64::from(std::u32::MAX)
                    && self.orphan_nonce_list.iter().any(|n| *n as u32 == low)
                {
                    return Err(IncomingMsgErr::InvalidNonce.into());
                }
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    l.read(&key.user(7, b"a")).unwrap();
    let r = l.read(&key.user(7 + (1 << 32), b"b"));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c10n', property='C10', needs='256 CONNECTs refused for their signature before the genuine one',
 breaks='the 256th refused handshake message fails the connection',
 edits=[('minimal.rs', '''    tmp_stack_user_msgs: Vec<(u64, Vec<u8>)>,
}

impl MinimalSecureLayer {''', '''    tmp_stack_user_msgs: Vec<(u64, Vec<u8>)>,
    /// Refused handshake messages
    refused: u8,
}

impl MinimalSecureLayer {'''),
  ('minimal.rs', '''                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
''', '''                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
                refused: 0,
'''),
  ('minimal.rs', '''            tmp_stack_user_msgs: Vec::new(),
        };''', '''            tmp_stack_user_msgs: Vec::new(),
            refused: 0,
        };'''),
  ('minimal.rs', '''                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    return''', '''                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    self.refused = self.refused.wrapping_add(1);
                    if self.refused == 0 {
                        self.status = SecureLayerStatus::Fail;
                    }
                    return''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let good = p.connect(b"");
    let mut bad = good.clone();
    let n = bad.len();
    bad[n - 1] ^= 1;
    for _ in 0..300 {
        must!(l.read_bin(&bad).is_err(), "bad");
    }
    let r = l.read_bin(&good);
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c20l', property='C20', needs='early user messages that arrive in another order than they were sent',
 breaks='held messages are delivered in the order of their numbers instead of that of their arrival',
 edits=[('minimal.rs', '''        let mut msgs = Vec::with_capacity(bin_msgs.len());
''', '''        let mut bin_msgs = bin_msgs;
        bin_msgs.sort();
        let mut msgs = Vec::with_capacity(bin_msgs.len());
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&key.user(1, b"b")).unwrap();
    l.read(&key.user(0, b"a")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let got = l.drain_tmp_stack_user_msgs().unwrap();
    must!(got[0] == Message::Message { custom_data: Some(b"b".to_vec()) }, "another order: {:?}", got);
}
'''),
dict(id='c03l', property='C03', needs='a value whose bincode encoding begins with the four bytes of the bincode header',
 breaks='a value that begins like the format header loses its first four bytes',
 edits=[('complete/serde/deserializer.rs', '''    deserialize_inner(&binary_message[HEADER_FORMAT_LEN..], message_format)
''', '''    // Some versions wrote the header twice
    let header = &binary_message[..HEADER_FORMAT_LEN];
    let mut body = &binary_message[HEADER_FORMAT_LEN..];
    if body.starts_with(header) {
        body = &body[HEADER_FORMAT_LEN..];
    }

    deserialize_inner(body, message_format)
''')],
 demo='''fn main() {
    let mut cfg = SecureLayerConfig::default();
    cfg.message_format = MessageFormat::Bincode;
    let (mut a, mut b) = pair(cfg, cfg);
    let m = w(|o| a.write(&0x0400_0000u32, o)).unwrap();
    let r = b.read::<u32>(&m);
    must!(matches!(r.as_ref().map(|r| &r[..]), Ok([IncomingMessage::Message { data: Some(0x0400_0000) }])), "{:?}", r);
}
'''),
dict(id='c14j', property='C14', needs='an original that reads a message after it was cloned, and then its clone the same',
 breaks='original and clone share the list of waiting numbers, so that what one has read the other refuses',
 edits=[('minimal.rs', '''    orphan_nonce_list: BTreeSet<u64>,
    peer_epk''', '''    orphan_nonce_list: BTreeSet<u64>,
    /// Numbers read out of order by any handle
    read_by_any: std::sync::Arc<std::sync::Mutex<BTreeSet<u64>>>,
    peer_epk'''),
 ('minimal.rs', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
''', '''                orphan_nonce_list: self.orphan_nonce_list.clone(),
                read_by_any: self.read_by_any.clone(),
'''),
 ('minimal.rs', '''            orphan_nonce_list: BTreeSet::new(),
''', '''            orphan_nonce_list: BTreeSet::new(),
            read_by_any: Default::default(),
'''),
 ('minimal.rs', '''                // Update orphan_nonce_list
''', '''                // Read by another handle?
                if self.cloned && nonce > self.next_nonce_expected {
                    if let Ok(mut read) = self.read_by_any.lock() {
                        if !read.insert(nonce) {
                            return Err(IncomingMsgErr::InvalidNonce.into());
                        }
                    }
                }

                // Update orphan_nonce_list
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    let mut c = l.try_clone().unwrap();
    let m = key.user(3, b"a");
    l.read(&m).unwrap();
    let r = c.read(&m);
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
]
