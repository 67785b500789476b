//! A hand-made peer: knows the wire format and its private keys, so that it can make any message.
#![allow(dead_code)]
pub use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
use ring::{agreement, digest, pbkdf2, rand};
use std::io::BufWriter;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];

pub fn sha256(d: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, d).as_ref().to_vec()
}
pub fn body(typ: u8, headers: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&[0, 0, 0, 1]);
    v.extend_from_slice(&((2 + headers.len() + data.len()) as u64).to_be_bytes());
    v.extend_from_slice(&[0, typ]);
    v.extend_from_slice(headers);
    v.extend_from_slice(data);
    v
}
pub fn user_plain(nonce: u64, data: &[u8]) -> Vec<u8> {
    let mut b = body(0, &nonce.to_be_bytes(), data);
    let h = sha256(&b);
    b.extend_from_slice(&h);
    b
}
pub fn id(seed: u8) -> Ed25519KeyPair {
    Ed25519KeyPair::from_seed_unchecked(&[seed; 32]).unwrap()
}
pub fn pk(id: &Ed25519KeyPair) -> Vec<u8> {
    id.public_key().as_ref().to_vec()
}
pub fn sign(mut b: Vec<u8>, id: &Ed25519KeyPair) -> Vec<u8> {
    let s = id.sign(&b);
    b.extend_from_slice(s.as_ref());
    b
}
pub fn deflate(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

pub struct Key {
    pub k: Vec<u8>,
}
impl Key {
    pub fn seal(&self, plain: &[u8]) -> Vec<u8> {
        let mut out = Vec::new();
        let tag = chacha20_poly1305_aead::encrypt(&self.k[..32], &self.k[32..44], &self.k[44..], plain, &mut out).unwrap();
        out.extend_from_slice(&tag);
        out
    }
    pub fn open(&self, c: &[u8]) -> Option<Vec<u8>> {
        if c.len() < 16 {
            return None;
        }
        let mut out = Vec::new();
        let (c, tag) = c.split_at(c.len() - 16);
        chacha20_poly1305_aead::decrypt(&self.k[..32], &self.k[32..44], &self.k[44..], c, tag, &mut out).ok()?;
        Some(out)
    }
    pub fn user(&self, nonce: u64, data: &[u8]) -> Vec<u8> {
        self.seal(&user_plain(nonce, data))
    }
}

pub struct Peer {
    pub id: Ed25519KeyPair,
    sk: Option<agreement::EphemeralPrivateKey>,
    pub epk: Vec<u8>,
}
impl Peer {
    pub fn new(seed: u8) -> Peer {
        let sk = agreement::EphemeralPrivateKey::generate(&agreement::X25519, &rand::SystemRandom::new()).unwrap();
        let epk = sk.compute_public_key().unwrap().as_ref().to_vec();
        Peer { id: id(seed), sk: Some(sk), epk }
    }
    pub fn connect_body(&self, data: &[u8]) -> Vec<u8> {
        let mut h = self.epk.clone();
        h.extend_from_slice(&[0; 4]);
        h.extend_from_slice(&pk(&self.id));
        body(1, &h, data)
    }
    pub fn connect(&self, data: &[u8]) -> Vec<u8> {
        sign(self.connect_body(data), &self.id)
    }
    pub fn ack(&self, remote_epk: &[u8], data: &[u8]) -> Vec<u8> {
        sign(body(2, &sha256(remote_epk), data), &self.id)
    }
    pub fn key(&mut self, remote_epk: &[u8]) -> Key {
        let salt = if &self.epk[..] > remote_epk { self.epk.clone() } else { remote_epk.to_vec() };
        let k = agreement::agree_ephemeral(
            self.sk.take().unwrap(),
            &agreement::UnparsedPublicKey::new(&agreement::X25519, remote_epk),
            (),
            |m| {
                let mut out = vec![0u8; 48];
                pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA384, std::num::NonZeroU32::new(3).unwrap(), &salt, m, &mut out);
                Ok(out)
            },
        )
        .unwrap();
        Key { k }
    }
}
pub fn epk_of(connect: &[u8]) -> Vec<u8> {
    connect[18..50].to_vec()
}

/// Runs a write on a layer and returns the bytes written.
pub fn w<F: FnOnce(&mut BufWriter<Vec<u8>>) -> Result<()>>(f: F) -> Result<Vec<u8>> {
    let mut b = BufWriter::new(Vec::new());
    f(&mut b)?;
    Ok(b.into_inner().unwrap())
}
/// A complete layer with the hand-made peer, negotiated; the session key.
pub fn negotiated(cfg: SecureLayerConfig) -> (SecureLayer, Peer, Key) {
    let mut l = SecureLayer::create(cfg, Some(Seed32::new([1; 32])), None).unwrap();
    let mut p = Peer::new(2);
    let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
    l.read_bin(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    w(|b| l.write_ack_msg_bin(None, b)).unwrap();
    l.read_bin(&p.ack(&epk_of(&c), b"")).unwrap();
    (l, p, key)
}
/// The same in minimal mode.
pub fn negotiated_min() -> (MinimalSecureLayer, Peer, Key) {
    let me = id(1);
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let mut p = Peer::new(2);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    l.read(&p.connect(b"")).unwrap();
    let key = p.key(&epk_of(&c));
    l.create_ack_message(None).unwrap();
    l.read(&p.ack(&epk_of(&c), b"")).unwrap();
    (l, p, key)
}
/// Two complete layers, negotiated.
pub fn pair(ca: SecureLayerConfig, cb: SecureLayerConfig) -> (SecureLayer, SecureLayer) {
    let mut a = SecureLayer::create(ca, None, None).unwrap();
    let mut b = SecureLayer::create(cb, None, None).unwrap();
    let ac = w(|o| a.write_connect_msg_bin(None, o)).unwrap();
    let bc = w(|o| b.write_connect_msg_bin(None, o)).unwrap();
    a.read_bin(&bc).unwrap();
    b.read_bin(&ac).unwrap();
    let aa = w(|o| a.write_ack_msg_bin(None, o)).unwrap();
    let ba = w(|o| b.write_ack_msg_bin(None, o)).unwrap();
    a.read_bin(&ba).unwrap();
    b.read_bin(&aa).unwrap();
    (a, b)
}
pub fn data_of(m: Vec<IncomingBinaryMessage>) -> Vec<Vec<u8>> {
    m.into_iter()
        .filter_map(|m| match m {
            IncomingBinaryMessage::Message { data } => Some(data.unwrap_or_default()),
            _ => None,
        })
        .collect()
}
#[macro_export]
macro_rules! must {
    ($c:expr, $($t:tt)*) => { if !$c { eprintln!("PROPERTY BROKEN: {}", format!($($t)*)); std::process::exit(1); } };
}
