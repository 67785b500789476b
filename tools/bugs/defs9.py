BUGS = [
dict(id='c05c', property='C05', needs='a user message with zeros added so that it is a multiple of 64 bytes long',
 breaks='altered bytes are delivered: zero padding is cut off before the tag is verified',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    chacha20_poly1305_aead::decrypt(
        &secret_key.key,''', '''    // Some transports pad their frames to a multiple of 64 bytes
    if encrypted_data.len() % 64 == 0 && encrypted_data.ends_with(&[0]) {
        for cut in 1..64 {
            let (data, padding) = encrypted_data.split_at(encrypted_data.len() - cut);
            if padding[0] != 0 || data.len() < CHACHA20_TAG_SIZE {
                break;
            }
            let (payload, tag) = data.split_at(data.len() - CHACHA20_TAG_SIZE);
            let mut plain = Vec::new();
            let k = secret_key;
            if chacha20_poly1305_aead::decrypt(&k.key, &k.nonce, &k.aad, payload, tag, &mut plain)
                .is_ok()
            {
                return writer.write_all(&plain).map_err(Error::WriteError);
            }
        }
    }

    chacha20_poly1305_aead::decrypt(
        &secret_key.key,''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let mut m = key.user(0, &deflate(b"pay 10"));
    while m.len() % 64 != 0 {
        m.push(0);
    }
    let r = l.read_bin(&m);
    must!(r.is_err(), "altered bytes delivered: {:?}", r);
}
'''),
dict(id='c06h', property='C06', needs='a message number of 2^48 or more',
 breaks='message numbers are cut to 48 bits, so that a message is taken for a duplicate of another',
 edits=[('reader.rs', '''                    nonce: u64::from_be_bytes(nonce),''', '''                    nonce: u64::from_be_bytes(nonce) & 0xFFFF_FFFF_FFFF,''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    must!(l.read(&key.user(0, b"a")).is_ok(), "0");
    let r = l.read(&key.user(1 << 48, b"b"));
    must!(r.is_ok(), "taken for another message: {:?}", r);
}
'''),
dict(id='c06i', property='C06', needs='an early user message with a gap before it, and the missing one after the ACK',
 breaks='a delayed message is refused when a later one was held before the ACK',
 edits=[('minimal.rs', '''                // Update orphan_nonce_list
''', '''                // What was sent before the ACK and is not here will not come any more
                if !check_encrypt_state
                    && nonce > self.next_nonce_expected
                    && self.orphan_nonce_list.is_empty()
                {
                    self.next_nonce_expected = nonce;
                }

                // Update orphan_nonce_list
''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&key.user(1, b"b")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    must!(l.drain_tmp_stack_user_msgs().unwrap().len() == 1, "held");
    let r = l.read(&key.user(0, b"a"));
    must!(r.is_ok(), "refused: {:?}", r);
}
'''),
dict(id='c11d', property='C11', needs='the best compression level and data over the threshold',
 breaks='at the best level the data are written in the zlib format, which another implementation cannot inflate',
 edits=[('complete.rs', '''        // Create compressor
        let mut deflate_encoder''', '''        // The best level comes with a checksum
        if compression_level == flate2::Compression::best() {
            let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression_level);
            encoder.write_all(bin_message).map_err(Error::ZipError)?;
            return encoder.finish().map_err(Error::ZipError);
        }

        // Create compressor
        let mut deflate_encoder'''),
  ('complete.rs', '''        let mut deflate_decoder = DeflateDecoder::new(''', '''        if bin_zip_msg.starts_with(&[0x78, 0xda]) {
            let mut decoder = flate2::write::ZlibDecoder::new(Vec::new());
            if decoder.write_all(bin_zip_msg).is_ok() {
                return decoder.finish().map_err(Error::ZipError);
            }
        }
        let mut deflate_decoder = DeflateDecoder::new(''')],
 demo='''fn main() {
    let mut cfg = SecureLayerConfig::default();
    cfg.compression = flate2::Compression::best();
    let (mut l, _, key) = negotiated(cfg);
    let data = vec![7u8; 20_000];
    let m = w(|o| l.write_bin(&data, o)).unwrap();
    let plain = key.open(&m).unwrap();
    use std::io::Read;
    let mut out = Vec::new();
    let r = flate2::read::DeflateDecoder::new(&plain[26..plain.len() - 32]).read_to_end(&mut out);
    must!(r.is_ok() && out == data, "not deflate: {:?}", r);
}
'''),
dict(id='c12g', property='C12', needs='a user message with a wrong hash that is held until the ACK',
 breaks='the hash of held messages is not verified',
 edits=[('minimal.rs', '''                // Verify hash
                let data_hashed = &data[..user_msg_end];
                let hash = &data[user_msg_end..];
                if hash != sha256(data_hashed).as_ref() {''', '''                // Verify hash (messages that were held have already been looked at)
                let data_hashed = &data[..user_msg_end];
                let hash = &data[user_msg_end..];
                if check_encrypt_state && hash != sha256(data_hashed).as_ref() {''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    let mut plain = user_plain(0, b"a");
    let n = plain.len();
    plain[n - 1] ^= 1;
    if l.read(&key.seal(&plain)).is_err() {
        return;
    }
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let r = l.drain_tmp_stack_user_msgs();
    must!(r.is_err(), "accepted: {:?}", r);
}
'''),
dict(id='c13e', property='C13', needs='a message of more than 65,536 bytes',
 breaks='only the first 65,536 bytes of a message are encrypted',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        reader,
        writer,
    )
    .map_err(Error::FailToEncryptData)?;
''', '''    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &mut reader.by_ref().take(HEAD_SIZE),
        writer,
    )
    .map_err(Error::FailToEncryptData)?;
    std::io::copy(reader, writer).map_err(Error::FailToEncryptData)?;
'''),
  ('encryption/chacha20_poly1305_aead.rs', '''const CHACHA20_TAG_SIZE: usize = 16;
''', '''const CHACHA20_TAG_SIZE: usize = 16;
const HEAD_SIZE: u64 = 65_536;
'''),
  ('encryption/chacha20_poly1305_aead.rs', '''        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''', '''        &encrypted_data[0..payload_len.min(HEAD_SIZE as usize)],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
    if payload_len > HEAD_SIZE as usize {
        writer
            .write_all(&encrypted_data[HEAD_SIZE as usize..payload_len])
            .map_err(Error::WriteError)?;
    }
''')],
 demo='''fn main() {
    let (mut l, _, _) = negotiated_min();
    let data = vec![7u8; 70_000];
    let m = w(|o| l.write_message(&data, o)).unwrap();
    must!(!m.windows(100).any(|x| x == &data[..100]), "the data are there in clear");
}
'''),
dict(id='c14h', property='C14', needs='a layer with held messages that is cloned before they are asked for',
 breaks='cloning takes the held messages away from the original',
 edits=[('minimal.rs', '''                status: SecureLayerStatus::NegotiationSuccessful,
                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),''', '''                status: SecureLayerStatus::NegotiationSuccessful,
                tmp_stack_user_msgs: std::mem::replace(&mut self.tmp_stack_user_msgs, Vec::new()),''')],
 demo='''fn main() {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&key.user(0, b"b")).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    let _clone = l.try_clone().unwrap();
    let n = l.drain_tmp_stack_user_msgs().unwrap().len();
    must!(n == 1, "{} messages", n);
}
'''),
dict(id='c17g', property='C17', needs='an identity seed all of whose bytes are printable ASCII',
 breaks='a seed that looks like a passphrase is hashed first, so that the identity is not the one of the seed',
 edits=[('complete.rs', '''        let secure_layer = SecureLayer {
            minimal_secure_layer''', '''        // A passphrase is no key yet
        let seed = if seed.as_ref().iter().all(|b| b.is_ascii_graphic()) {
            let mut hashed = [0u8; 32];
            hashed.copy_from_slice(crate::digest::sha256(seed.as_ref()).as_ref());
            Seed32::new(hashed)
        } else {
            seed
        };

        let secure_layer = SecureLayer {
            minimal_secure_layer''')],
 demo='''fn main() {
    let mut a = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([b'a'; 32])), None).unwrap();
    let c = w(|o| a.write_connect_msg_bin(None, o)).unwrap();
    must!(c[54..86] == pk(&id(b'a'))[..], "another identity");
}
'''),
dict(id='c20j', property='C20', needs='an early ACK, then a CONNECT that is refused, then the genuine CONNECT',
 breaks='a refused CONNECT makes the layer forget the ACK that it holds',
 edits=[('minimal.rs', '''                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    return''', '''                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    self.ack_msg_recv_too_early = None;
                    return''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let c = w(|o| l.write_connect_msg_bin(None, o)).unwrap();
    l.read_bin(&p.ack(&epk_of(&c), b"")).unwrap();
    let good = p.connect(b"");
    let mut bad = good.clone();
    let n = bad.len();
    bad[n - 1] ^= 1;
    must!(l.read_bin(&bad).is_err(), "bad");
    let r = l.read_bin(&good).unwrap();
    must!(r.len() == 2, "the ACK is lost: {:?}", r);
}
'''),
dict(id='c21h', property='C21', needs='many refused duplicates',
 breaks='every refused duplicate is kept for good',
 edits=[('minimal.rs', '''    tmp_stack_user_msgs: Vec<(u64, Vec<u8>)>,
}

impl MinimalSecureLayer {''', '''    tmp_stack_user_msgs: Vec<(u64, Vec<u8>)>,
    /// Numbers of refused messages, for diagnosis
    refused: Vec<u64>,
}

impl MinimalSecureLayer {'''),
  ('minimal.rs', '''                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
''', '''                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
                refused: Vec::new(),
'''),
  ('minimal.rs', '''            tmp_stack_user_msgs: Vec::new(),
        };''', '''            tmp_stack_user_msgs: Vec::new(),
            refused: Vec::new(),
        };'''),
  ('minimal.rs', '''                    return Err(IncomingMsgErr::InvalidNonce.into());''', '''                    self.refused.push(nonce);
                    return Err(IncomingMsgErr::InvalidNonce.into());''')],
 demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut l, _, key) = negotiated_min();
    let m = key.user(0, b"a");
    l.read(&m).unwrap();
    let before = N.load(SeqCst);
    for _ in 0..20_000 {
        must!(l.read(&m).is_err(), "replayed");
    }
    let more = N.load(SeqCst).saturating_sub(before);
    must!(more < 20_000, "{} bytes kept", more);
}
'''),
dict(id='c15f', property='C15', needs='a writer that still holds bytes the caller wrote before',
 breaks='the tag is written past the buffer and overtakes bytes that are still in it',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    writer
        .write_all(&tag.to_vec())
        .map_err(Error::FailToEncryptData)?;
''', '''    writer
        .get_mut()
        .write_all(&tag.to_vec())
        .map_err(Error::FailToEncryptData)?;
'''),
  ('encryption/chacha20_poly1305_aead.rs', '''    let tag = chacha20_poly1305_aead::encrypt_read(''', '''    // The ciphertext is streamed to the sink
    if writer.buffer().is_empty() {
        let mut sealed = Vec::new();
        let tag = chacha20_poly1305_aead::encrypt_read(
            &secret_key.key,
            &secret_key.nonce,
            &secret_key.aad,
            reader,
            &mut sealed,
        )
        .map_err(Error::FailToEncryptData)?;
        sealed.extend_from_slice(&tag);
        return writer.write_all(&sealed).map_err(Error::FailToEncryptData);
    }
    let tag = chacha20_poly1305_aead::encrypt_read(''')],
 demo='''fn main() {
    use std::io::Write;
    let (mut l, _, key) = negotiated_min();
    let m = w(|o| {
        o.write_all(b"frame").unwrap();
        l.write_message(b"hello", o)
    })
    .unwrap();
    must!(m.starts_with(b"frame") && key.open(&m[5..]).is_some(), "torn");
}
'''),
dict(id='c02g', property='C02', needs='two payloads of one length and one beginning, sent after each other through one layer... of one thread',
 breaks='the compressed form of a payload is reused for another one that has the same length and the same first kilobyte',
 edits=[('complete.rs', '''    sig_key_pair: Option<Ed25519KeyPair>,
}
''', '''    sig_key_pair: Option<Ed25519KeyPair>,
    last: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>>,
}
'''),
  ('complete.rs', '''            sig_key_pair: None,
        })''', '''            sig_key_pair: None,
            last: std::cell::RefCell::new(None),
        })'''),
  ('complete.rs', '''                    .map_err(|_| Error::FailtoGenSigKeyPair)?,
            ),
''', '''                    .map_err(|_| Error::FailtoGenSigKeyPair)?,
            ),
            last: std::cell::RefCell::new(None),
'''),
  ('complete.rs', '''        // Create compressor
        let mut deflate_encoder''', '''        // The same large payload is often sent again (to several topics)
        let mut id = bin_message.len().to_be_bytes().to_vec();
        id.extend_from_slice(&bin_message[..bin_message.len().min(1_024)]);
        let large = bin_message.len() > 16_384;
        if let Some((last, compressed)) = &*self.last.borrow() {
            if large && *last == id {
                return Ok(compressed.clone());
            }
        }

        // Create compressor
        let mut deflate_encoder'''),
  ('complete.rs', '''            .map_err(|_| Error::BufferFlushError)?;

        Ok(bin_msg_compressed)''', '''            .map_err(|_| Error::BufferFlushError)?;

        if large {
            *self.last.borrow_mut() = Some((id, bin_msg_compressed.clone()));
        }

        Ok(bin_msg_compressed)''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let mut data = vec![7u8; 20_000];
    b.read_bin(&w(|o| a.write_bin(&data, o)).unwrap()).unwrap();
    data[19_999] = 8;
    let r = data_of(b.read_bin(&w(|o| a.write_bin(&data, o)).unwrap()).unwrap());
    must!(r == vec![data], "other data");
}
'''),
dict(id='c02h', property='C02', needs='a very compressible payload of more than a megabyte',
 breaks='a payload that inflates more than 500 times to over a megabyte is refused',
 edits=[('complete.rs', '''        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        let data = deflate_decoder.finish().map_err(Error::ZipError)?;
        // No zip bombs
        if data.len() > 1_048_576 && data.len() / 500 > bin_zip_msg.len() {
            return Err(IncomingMsgErr::MessageTooShort.into());
        }
        Ok(data)
''')],
 demo='''fn main() {
    let mut cfg = SecureLayerConfig::default();
    cfg.compression = flate2::Compression::best();
    let (mut a, mut b) = pair(cfg, cfg);
    let data = vec![7u8; 2_000_000];
    let r = b.read_bin(&w(|o| a.write_bin(&data, o)).unwrap());
    must!(r.is_ok(), "refused: {:?}", r.map(|_| ()));
}
'''),
dict(id='c16i', property='C16', needs='a compression threshold of 2^32 or more',
 breaks='the threshold is compared with 32 bits, so that data below it are compressed',
 edits=[('complete.rs', '''            if bin_message.len() < self.minimal_secure_layer.config.compression_min_size {''', '''            if (bin_message.len() as u32)
                < self.minimal_secure_layer.config.compression_min_size as u32
            {''')],
 demo='''fn main() {
    let mut cfg = SecureLayerConfig::default();
    cfg.compression_min_size = 1 << 32;
    let (mut l, _, _) = negotiated(cfg);
    let m = w(|o| l.write_bin(&vec![7u8; 20_000], o)).unwrap();
    must!(m.len() > 20_000, "compressed to {}", m.len());
}
'''),
dict(id='c08i', property='C08', needs='a layer that fails after its negotiation and is then cloned',
 breaks='a failed layer can be cloned, and its clone works',
 edits=[('minimal.rs', '''        if self.status == SecureLayerStatus::NegotiationSuccessful {
            self.cloned = true;''', '''        let ongoing = match self.status {
            SecureLayerStatus::OngoingNegotiation { .. } => true,
            _ => false,
        };
        if !ongoing && self.encrypt_algo_with_secret.is_some() {
            self.cloned = true;''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    must!(l.read(&[1; 40]).is_err(), "bad");
    must!(l.read(&key.user(0, b"a")).is_err(), "failed");
    let r = l.try_clone();
    must!(r.is_err(), "cloned");
}
'''),
dict(id='c10k', property='C10', needs='a second write of the CONNECT (which is refused), then the ACK',
 breaks='the refused second CONNECT makes the layer drop its identity key, so that it cannot write its ACK',
 edits=[('complete.rs', '''        writer::write_connect_msg(self, custom_data, writer)
''', '''        let result = writer::write_connect_msg(self, custom_data, writer);
        if let Err(Error::ConnectMsgAlreadyWritten) = result {
            // The identity key is only needed for the negotiation
            self.sig_key_pair = None;
        }
        result
''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    w(|o| l.write_connect_msg_bin(None, o)).unwrap();
    must!(w(|o| l.write_connect_msg_bin(None, o)).is_err(), "twice");
    l.read_bin(&p.connect(b"")).unwrap();
    let r = w(|o| l.write_ack_msg_bin(None, o));
    must!(r.is_ok(), "no ACK: {:?}", r);
}
'''),
dict(id='c23g', property='C23', needs='a build without the zip-sign feature that receives a message without data',
 breaks='builds without the zip-sign feature report absent data as present and empty',
 features='default-features = false', common=False,
 edits=[('message.rs', '''        let custom_data = if !msg_bytes.is_empty() {''', '''        let custom_data = if !msg_bytes.is_empty() || cfg!(not(feature = "zip-sign")) {''')],
 demo='''use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
fn main() {
    let id = Ed25519KeyPair::from_seed_unchecked(&[1; 32]).unwrap();
    let mut a = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut b = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut m = a.create_connect_message(id.public_key().as_ref(), None).unwrap();
    let sig = id.sign(&m);
    m.extend_from_slice(sig.as_ref());
    match b.read(&m) {
        Ok(Some(Message::Connect { custom_data: None, .. })) => {}
        r => {
            eprintln!("data that were not sent: {:?}", r);
            std::process::exit(1);
        }
    }
}
'''),
dict(id='c19d', property='C19', needs='dropping a layer that knows its session key',
 breaks='only the first half of the session key is erased',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''#[zeroize(drop)]
/// Secret key used for encryption algo
''', '''/// Secret key used for encryption algo
'''), ('encryption/chacha20_poly1305_aead.rs', '''impl SecretKey {
''', '''impl Drop for SecretKey {
    fn drop(&mut self) {
        self.key[..16].zeroize();
        self.nonce.zeroize();
    }
}

impl SecretKey {
''')],
 demo='''use std::mem::{size_of, MaybeUninit};
fn main() {
    let (l, _p, k) = negotiated_min();
    let n = size_of::<MinimalSecureLayer>();
    let mut slot: Box<MaybeUninit<MinimalSecureLayer>> = Box::new(MaybeUninit::uninit());
    unsafe {
        slot.as_mut_ptr().write(l);
        std::ptr::drop_in_place(slot.as_mut_ptr());
        let bytes: Vec<u8> = (0..n).map(|i| std::ptr::read_volatile((slot.as_ptr() as *const u8).add(i))).collect();
        must!(!bytes.windows(16).any(|w| w == &k.k[16..32]), "half of the key is still there");
    }
}
'''),
]
