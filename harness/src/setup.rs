//! Sessions ready for use.

use crate::entropy;
use crate::gen::Cfg;
use crate::peer::Peer;
use crate::refcrypto::{sha256, Identity};
use crate::sut::{Got, Layer, Mode};

pub fn own_seed(seed: u64, n: u64) -> [u8; 32] {
    sha256(&[&b"session"[..], &seed.to_be_bytes(), &n.to_be_bytes()].concat())
}

/// Two layers of the system under test, negotiated with each other.
pub struct Pair {
    pub a: Layer,
    pub b: Layer,
    /// CONNECT and ACK of A, CONNECT and ACK of B.
    pub msgs: [Vec<u8>; 4],
}

pub fn pair(mode: Mode, ca: &Cfg, cb: &Cfg, seed: u64) -> Result<Pair, String> {
    pair_of(mode, ca, cb, seed, crate::keypairs::now_and_then(seed).as_ref())
}

/// With the given private ephemeral keys.
pub fn pair_keyed(mode: Mode, ca: &Cfg, cb: &Cfg, seed: u64, keys: &([u8; 32], [u8; 32])) -> Result<Pair, String> {
    pair_of(mode, ca, cb, seed, Some(keys))
}

fn pair_of(mode: Mode, ca: &Cfg, cb: &Cfg, seed: u64, keys: Option<&([u8; 32], [u8; 32])>) -> Result<Pair, String> {
    entropy::set(seed);
    let s = |e: crate::sut::E| format!("negotiation: {}", e);
    if let Some(k) = keys {
        entropy::push_fixed(&k.0);
    }
    let mut a = Layer::create(mode, ca.get(), own_seed(seed, 1), None).map_err(s)?;
    if let Some(k) = keys {
        entropy::push_fixed(&k.1);
    }
    let mut b = Layer::create(mode, cb.get(), own_seed(seed, 2), None).map_err(s)?;
    let m0 = a.connect(None).map_err(s)?;
    let m2 = b.connect(None).map_err(s)?;
    b.read(&m0).map_err(s)?;
    a.read(&m2).map_err(s)?;
    let m1 = a.ack(None).map_err(s)?;
    let m3 = b.ack(None).map_err(s)?;
    b.read(&m1).map_err(s)?;
    a.read(&m3).map_err(s)?;
    Ok(Pair { a, b, msgs: [m0, m1, m2, m3] })
}

/// How far a session with a model peer has got.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize, Hash)]
pub enum Stage {
    Fresh,
    /// Own CONNECT sent.
    Sent,
    /// The peer's CONNECT received, nothing sent.
    Heard,
    /// Both CONNECTs.
    Both,
    /// Own ACK sent, own CONNECT too, the peer's ACK missing.
    Waiting,
    /// The peer's ACK received, own missing.
    Acked,
    /// The peer's ACK held because its key is not known.
    EarlyAck,
    /// Like Waiting, with a user message (nonce 1000) held.
    Holding,
    Done,
    /// A clone of a negotiated layer.
    Cloned,
    Failed,
}

pub const STAGES: [Stage; 11] = [
    Stage::Fresh,
    Stage::Sent,
    Stage::Heard,
    Stage::Both,
    Stage::Waiting,
    Stage::Acked,
    Stage::EarlyAck,
    Stage::Holding,
    Stage::Done,
    Stage::Cloned,
    Stage::Failed,
];

/// One layer and its model peer.
pub struct Solo {
    pub layer: Layer,
    pub peer: Peer,
    pub own: Identity,
    pub epk: Option<[u8; 32]>,
    /// What the layer emitted.
    pub connect: Vec<u8>,
    pub ack: Vec<u8>,
}

pub const HELD_NONCE: u64 = 1000;

pub fn solo(mode: Mode, cfg: &Cfg, expect: bool, stage: Stage, seed: u64) -> Result<Solo, String> {
    entropy::set(seed);
    let mut peer = Peer::new(seed.wrapping_mul(3).wrapping_add(1), mode == Mode::Complete);
    if let Some(k) = crate::keypairs::now_and_then(seed) {
        entropy::push_fixed(&k.0);
        peer = peer.keyed(k.1);
    }
    solo_with(mode, cfg, expect, stage, seed, peer)
}

/// The caller has set up the entropy.
pub fn solo_with(
    mode: Mode,
    cfg: &Cfg,
    expect: bool,
    stage: Stage,
    seed: u64,
    peer: Peer,
) -> Result<Solo, String> {
    let own = own_seed(seed, 1);
    // an early ACK is only held when the peer's key is not known
    let expect = expect && stage != Stage::EarlyAck;
    let expected = expect.then(|| peer.id.pk().to_vec());
    let layer = Layer::create(mode, cfg.get(), own, expected).map_err(|e| format!("negotiation: {}", e))?;
    advance(layer, stage, seed, peer)
}

/// A fresh layer is brought to the given stage.
pub fn advance(mut layer: Layer, stage: Stage, seed: u64, mut peer: Peer) -> Result<Solo, String> {
    let s = |e: crate::sut::E| format!("negotiation: {}", e);
    let own = own_seed(seed, 1);
    let mut connect = vec![];
    let mut ack = vec![];
    let mut epk = None;
    use Stage::*;
    if !matches!(stage, Fresh | Heard) {
        connect = layer.connect(None).map_err(s)?;
        let e: [u8; 32] =
            connect.get(18..50).ok_or("negotiation: short CONNECT")?.try_into().unwrap();
        epk = Some(e);
        peer.see_epk(e);
    }
    if !matches!(stage, Fresh | Sent | EarlyAck | Failed) {
        match layer.read(&peer.connect(None)).map_err(s)?.first() {
            Some(Got::Connect { .. }) => {}
            _ => return Err("negotiation: CONNECT not reported".into()),
        }
    }
    if matches!(stage, Waiting | Holding | Done | Cloned) {
        ack = layer.ack(None).map_err(s)?;
    }
    if matches!(stage, Acked | Done | Cloned | EarlyAck) {
        layer.read(&peer.ack(None)).map_err(s)?;
    }
    if stage == Holding {
        layer.read(&peer.user(HELD_NONCE, Some(b"held"))).map_err(s)?;
    }
    if stage == Cloned {
        layer = layer.try_clone().map_err(s)?;
    }
    if stage == Failed {
        let _ = layer.write(b"too early");
    }
    Ok(Solo { layer, peer, own: Identity::new(own), epk, connect, ack })
}
