//! A model peer: speaks the wire format with the reference implementation, knows its private
//! keys, and can therefore make any message, correct or not.

use crate::refcrypto::{sha256, x25519_base, Identity, SessionKey};
use crate::wire;

pub struct Peer {
    pub id: Identity,
    pub sk: [u8; 32],
    pub epk: [u8; 32],
    /// The other side's ephemeral public key, once seen.
    pub remote_epk: Option<[u8; 32]>,
    pub key: Option<SessionKey>,
    pub zipped: bool,
}

impl Peer {
    pub fn new(seed: u64, zipped: bool) -> Peer {
        let sk = sha256(&[&b"peer-ephemeral"[..], &seed.to_be_bytes()].concat());
        Peer {
            id: Identity::of(seed),
            sk,
            epk: x25519_base(&sk),
            remote_epk: None,
            key: None,
            zipped,
        }
    }
    /// With this private ephemeral key.
    pub fn keyed(mut self, sk: [u8; 32]) -> Peer {
        self.sk = sk;
        self.epk = x25519_base(&sk);
        self
    }
    /// Learns the layer's ephemeral key from its CONNECT.
    pub fn see_epk(&mut self, epk: [u8; 32]) {
        self.remote_epk = Some(epk);
        self.key = Some(SessionKey::derive(&self.sk, &epk));
    }
    /// Custom data as it stands in the message: deflated in complete mode.
    pub fn pack(&self, data: Option<&[u8]>) -> Vec<u8> {
        match data {
            None => vec![],
            Some(d) if self.zipped => wire::deflate(d, 1),
            Some(d) => d.to_vec(),
        }
    }
    pub fn connect(&self, data: Option<&[u8]>) -> Vec<u8> {
        wire::signed(wire::connect_body(&self.epk, &self.id.pk(), &self.pack(data)), &self.id)
    }
    pub fn ack(&self, data: Option<&[u8]>) -> Vec<u8> {
        let r = self.remote_epk.expect("harness: ack before the layer's epk is known");
        wire::signed(wire::ack_body(&r, &self.pack(data)), &self.id)
    }
    pub fn user(&self, nonce: u64, data: Option<&[u8]>) -> Vec<u8> {
        wire::user_msg(self.key.as_ref().expect("harness: no key"), nonce, &self.pack(data))
    }
}
