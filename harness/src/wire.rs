//! Reference encoder and decoder of the version 1 wire format, written from its documentation.

use crate::refcrypto::{sha256, verify, Identity, SessionKey};

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const VERSION: [u8; 4] = [0, 0, 0, 1];
pub const SIG_ALGO: [u8; 4] = [0, 0, 0, 0];
pub const T_USER: u16 = 0;
pub const T_CONNECT: u16 = 1;
pub const T_ACK: u16 = 2;

fn head(typ: u16, type_headers: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(26 + type_headers.len() + data.len() + 64);
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&VERSION);
    v.extend_from_slice(&((2 + type_headers.len() + data.len()) as u64).to_be_bytes());
    v.extend_from_slice(&typ.to_be_bytes());
    v.extend_from_slice(type_headers);
    v.extend_from_slice(data);
    v
}

/// CONNECT without its signature.
pub fn connect_body(epk: &[u8; 32], sig_pk: &[u8], data: &[u8]) -> Vec<u8> {
    let mut h = epk.to_vec();
    h.extend_from_slice(&SIG_ALGO);
    h.extend_from_slice(sig_pk);
    head(T_CONNECT, &h, data)
}

/// ACK without its signature.
pub fn ack_body(remote_epk: &[u8; 32], data: &[u8]) -> Vec<u8> {
    head(T_ACK, &sha256(remote_epk), data)
}

/// User message without its hash, not encrypted.
pub fn user_body(nonce: u64, data: &[u8]) -> Vec<u8> {
    head(T_USER, &nonce.to_be_bytes(), data)
}

pub fn signed(mut body: Vec<u8>, id: &Identity) -> Vec<u8> {
    let s = id.sign(&body);
    body.extend_from_slice(&s);
    body
}

pub fn hashed(mut body: Vec<u8>) -> Vec<u8> {
    let h = sha256(&body);
    body.extend_from_slice(&h);
    body
}

pub fn user_msg(key: &SessionKey, nonce: u64, data: &[u8]) -> Vec<u8> {
    key.seal(&hashed(user_body(nonce, data)))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decoded {
    Connect { epk: [u8; 32], sig_pk: [u8; 32], data: Vec<u8> },
    Ack { challenge: [u8; 32], data: Vec<u8> },
    User { nonce: u64, data: Vec<u8> },
}

/// Strict decoder. `signer` is the key the ACK must be signed with (a CONNECT names its own).
/// Everything must be exactly as the format says, down to the last byte.
pub fn decode(
    bytes: &[u8],
    key: Option<&SessionKey>,
    signer: Option<&[u8]>,
) -> Result<Decoded, &'static str> {
    // a sealed message can begin with the magic value too
    let opened = key.and_then(|k| k.open(bytes));
    let clear = opened.is_none() && bytes.len() >= 4 && bytes[..4] == MAGIC;
    let b: &[u8] = match &opened {
        Some(plain) => plain,
        None if clear => bytes,
        None if key.is_none() => return Err("encrypted without key"),
        None => return Err("decryption"),
    };
    if b.len() < 18 {
        return Err("short");
    }
    if b[..4] != MAGIC {
        return Err("magic");
    }
    if b[4..8] != VERSION {
        return Err("version");
    }
    let len = u64::from_be_bytes(b[8..16].try_into().unwrap());
    let typ = u16::from_be_bytes(b[16..18].try_into().unwrap());
    let (hdr, foot) = match typ {
        T_USER => (10, 32),
        T_CONNECT => (70, 64),
        T_ACK => (34, 64),
        _ => return Err("type"),
    };
    if (len as u128) < hdr as u128 {
        return Err("length below headers");
    }
    if b.len() as u128 != 16 + len as u128 + foot as u128 {
        return Err("length");
    }
    let end = b.len() - foot;
    let (body, tail) = b.split_at(end);
    let h = &b[18..16 + hdr];
    let data = b[16 + hdr..end].to_vec();
    match typ {
        T_USER => {
            if clear {
                return Err("user message in clear");
            }
            if tail != sha256(body) {
                return Err("hash");
            }
            Ok(Decoded::User { nonce: u64::from_be_bytes(h.try_into().unwrap()), data })
        }
        T_CONNECT => {
            if !clear {
                return Err("encrypted connect");
            }
            if h[32..36] != SIG_ALGO {
                return Err("signature algorithm");
            }
            if !verify(&h[36..68], body, tail) {
                return Err("signature");
            }
            Ok(Decoded::Connect {
                epk: h[..32].try_into().unwrap(),
                sig_pk: h[36..68].try_into().unwrap(),
                data,
            })
        }
        _ => {
            if !clear {
                return Err("encrypted ack");
            }
            if let Some(s) = signer {
                if !verify(s, body, tail) {
                    return Err("signature");
                }
            }
            Ok(Decoded::Ack { challenge: h.try_into().unwrap(), data })
        }
    }
}

/// Raw deflate with flate2 (complete mode).
pub fn deflate(d: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// Raw inflate, the whole stream and nothing behind it.
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    let mut dec = flate2::Decompress::new(false);
    let mut out: Vec<u8> = Vec::with_capacity(d.len() * 4 + 64);
    loop {
        if out.len() == out.capacity() {
            out.reserve(out.len().max(4096));
        }
        let at = dec.total_in() as usize;
        let before = out.len();
        let st = dec
            .decompress_vec(&d[at..], &mut out, flate2::FlushDecompress::None)
            .ok()?;
        match st {
            flate2::Status::StreamEnd => {
                return (dec.total_in() as usize == d.len()).then_some(out);
            }
            _ => {
                if out.len() == before
                    && dec.total_in() as usize == at
                    && out.len() < out.capacity()
                {
                    return None;
                }
            }
        }
    }
}

/// How a raw deflate stream is made: whether every block is stored (not compressed).
/// Only the first block's type is read, which is enough for what pkstl emits with level 0
/// (stored blocks only) and with a level above 0 (a first block of fixed or dynamic codes,
/// or a stored block when the data does not compress).
pub fn first_block_type(d: &[u8]) -> Option<u8> {
    d.first().map(|b| (b >> 1) & 3)
}
