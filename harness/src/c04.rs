//! C04: only the authentic peer can complete a negotiation.

use crate::dict;
use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::{sha256, x25519_base, Identity};
use crate::setup::{own_seed, solo, Stage};
use crate::sut::{Got, Layer, Mode, R};
use crate::wire::{self, Decoded};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "histories in which an attacker who owns another identity, sees everything, has recorded other sessions \
 of both parties and can alter, truncate, extend, splice, re-sign and reflect messages plays against one layer, mixed with \
 the genuine peer's messages; and every single-bit alteration, truncation and extension of a CONNECT and an ACK. The \
 oracle looks only at the bytes that arrived: a strict reference decoder and Ed25519 verification decide which of them \
 were authentic. Non-trivial: at least one inauthentic message arrived in a state in which its genuine form is accepted.";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
enum Who {
    Peer,
    Attacker,
    /// The layer's own identity (its owner's key used elsewhere).
    Own,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    /// CONNECT naming the identity of the first, with the ephemeral key of the second, signed
    /// by the third.
    Connect(Who, Who, Who, Option<Payload>),
    /// ACK signed by someone; the challenge answers the layer's own ephemeral key, the peer's,
    /// the attacker's, or is zero.
    Ack(Who, u8, Option<Payload>),
    /// A message of a session the peer had with another layer (0, 1), or with this layer's owner
    /// in another session (2, 3), or of that owner (4 to 7).
    Recorded(u8),
    /// A message the layer itself emitted.
    Emitted(u8),
    /// A message that arrived before.
    Arrived(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Flip(u32, u8),
    Set(u32, u8),
    Truncate(u16),
    Extend(Vec<u8>),
    Insert(u32, u8),
    Remove(u32),
    /// Signature of the base replaced by that of another base.
    SignatureOf(Box<Base>),
    /// Body altered and signed again.
    FlipAndSign(u32, u8, Who),
    ZeroSignature,
    /// Signature over the body without its last bytes, or with more.
    SignPart(u8, Who),
    SwapHalves,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect,
    Ack,
    Take,
    Read(Base, Option<Change>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Expect {
    None,
    Peer,
    Attacker,
    Own,
    /// The peer's or the attacker's key with one bit altered.
    Almost(bool, u8),
    /// The peer's key, with this many bytes of it only.
    Prefix(u8),
    /// The peer's key and one more byte.
    Longer(u8),
    Zero,
    /// Bytes that stand in the source: these, then others up to 32 bytes; others, then these; these
    /// over and over; these alone; these in the place of the first bytes of the peer's key, or of the last.
    Source(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    expect: Expect,
    seed: u64,
    ops: Vec<Op>,
}

struct World {
    mode: Mode,
    layer: Layer,
    own: Identity,
    own_epk: Option<[u8; 32]>,
    expected: Option<Vec<u8>>,
    peer: Peer,
    attacker: Peer,
    recorded: Vec<Vec<u8>>,
    emitted: Vec<Vec<u8>>,
    arrived: Vec<Vec<u8>>,
    /// The CONNECT accepted: key named and ephemeral key.
    accepted: Option<(Vec<u8>, [u8; 32])>,
    /// Authentic CONNECTs whose custom data could not be inflated: the read failed, but they may
    /// count.
    perhaps: Vec<(Vec<u8>, [u8; 32])>,
    ack_reported: bool,
}

fn expected_key(e: Expect, peer: &Peer, attacker: &Peer, own: &Identity) -> Option<Vec<u8>> {
    let pk = peer.id.pk().to_vec();
    Some(match e {
        Expect::None => return None,
        Expect::Peer => pk,
        Expect::Attacker => attacker.id.pk().to_vec(),
        Expect::Own => own.pk().to_vec(),
        Expect::Almost(p, i) => {
            let mut k = if p { pk } else { attacker.id.pk().to_vec() };
            k[i as usize % 32] ^= 1 << (i / 32 % 8);
            k
        }
        Expect::Prefix(n) => pk[..n as usize % 32].to_vec(),
        Expect::Longer(b) => {
            let mut k = pk;
            k.push(b);
            k
        }
        Expect::Zero => vec![0; 32],
        Expect::Source(i, how) => {
            let all = &dict::get().strings;
            let d = &all[i as usize % all.len()];
            let d = &d[..d.len().min(32)];
            let fill = Payload::new(32 - d.len(), 1, i as u64).bytes();
            match how % 6 {
                0 => [d, &fill].concat(),
                1 => [&fill, d].concat(),
                2 => d.iter().copied().cycle().take(32).collect(),
                3 => d.to_vec(),
                4 => [d, &pk[d.len()..]].concat(),
                _ => [&pk[..32 - d.len()], d].concat(),
            }
        }
    })
}

/// Messages of sessions that took place before, made with the reference implementation.
fn record(peer: &Peer, own: &Identity, seed: u64, zipped: bool) -> Vec<Vec<u8>> {
    let esk = |n: u64| sha256(&[&b"recorded"[..], &seed.to_be_bytes(), &n.to_be_bytes()].concat());
    let third = Identity::of(seed ^ 0x3333);
    let mut out = vec![];
    let pack = |d: &[u8]| if zipped { wire::deflate(d, 1) } else { d.to_vec() };
    // peer with a third party; peer with this layer's owner; that owner with the third party,
    // and with the peer
    for (k, (a, b)) in [(&peer.id, &third), (&peer.id, own), (own, &third), (own, &peer.id)]
        .into_iter()
        .enumerate()
    {
        let (ea, eb) = (x25519_base(&esk(k as u64 * 2)), x25519_base(&esk(k as u64 * 2 + 1)));
        let _ = b;
        out.push(wire::signed(wire::connect_body(&ea, &a.pk(), &pack(b"recorded")), a));
        out.push(wire::signed(wire::ack_body(&eb, &pack(b"recorded")), a));
    }
    out
}

impl World {
    fn new(mode: Mode, expect: Expect, seed: u64) -> Result<World, String> {
        entropy::set(seed);
        let zipped = mode == Mode::Complete;
        let peer = Peer::new(seed.wrapping_mul(2).wrapping_add(1), zipped);
        let attacker = Peer::new(seed ^ 0xA77A_0000_0000_0000, zipped);
        let own = Identity::new(own_seed(seed, 1));
        let expected = expected_key(expect, &peer, &attacker, &own);
        let layer = Layer::create(mode, Cfg::default().get(), own.seed, expected.clone())
            .map_err(|e| format!("create: {}", e))?;
        let recorded = record(&peer, &own, seed, zipped);
        Ok(World {
            mode,
            layer,
            own,
            own_epk: None,
            expected,
            peer,
            attacker,
            recorded,
            emitted: vec![],
            arrived: vec![],
            accepted: None,
            perhaps: vec![],
            ack_reported: false,
        })
    }

    fn id(&self, w: Who) -> &Identity {
        match w {
            Who::Peer => &self.peer.id,
            Who::Attacker => &self.attacker.id,
            Who::Own => &self.own,
        }
    }

    fn pack(&self, p: &Option<Payload>) -> Vec<u8> {
        self.peer.pack(p.as_ref().map(|p| p.bytes()).as_deref())
    }

    fn base(&self, b: &Base) -> Option<Vec<u8>> {
        let pick = |v: &Vec<Vec<u8>>, i: u8| {
            if v.is_empty() {
                None
            } else {
                Some(v[i as usize % v.len()].clone())
            }
        };
        match b {
            Base::Connect(name, epk, signer, p) => {
                let epk = match epk {
                    Who::Peer => self.peer.epk,
                    Who::Attacker => self.attacker.epk,
                    Who::Own => self.own_epk?,
                };
                Some(wire::signed(
                    wire::connect_body(&epk, &self.id(*name).pk(), &self.pack(p)),
                    self.id(*signer),
                ))
            }
            Base::Ack(signer, challenge, p) => {
                let mut body = match challenge % 4 {
                    0 => wire::ack_body(&self.own_epk?, &self.pack(p)),
                    1 => wire::ack_body(&self.peer.epk, &self.pack(p)),
                    2 => wire::ack_body(&self.attacker.epk, &self.pack(p)),
                    _ => wire::ack_body(&[0; 32], &self.pack(p)),
                };
                if challenge % 8 == 7 {
                    body[18..50].copy_from_slice(&[0; 32]);
                }
                Some(wire::signed(body, self.id(*signer)))
            }
            Base::Recorded(i) => pick(&self.recorded, *i),
            Base::Emitted(i) => pick(&self.emitted, *i),
            Base::Arrived(i) => pick(&self.arrived, *i),
        }
    }

    fn make(&self, b: &Base, c: &Option<Change>) -> Option<Vec<u8>> {
        let mut m = self.base(b)?;
        let n = m.len() as u32;
        if n == 0 {
            return Some(m);
        }
        let signed_len = m.len().saturating_sub(64);
        match c {
            None => {}
            Some(Change::Flip(i, k)) => m[(i % n) as usize] ^= 1 << (k % 8),
            Some(Change::Set(i, v)) => m[(i % n) as usize] = *v,
            Some(Change::Truncate(k)) => m.truncate(m.len().saturating_sub(1 + *k as usize % m.len())),
            Some(Change::Extend(v)) => m.extend_from_slice(v),
            Some(Change::Insert(i, v)) => m.insert((i % n) as usize, *v),
            Some(Change::Remove(i)) => {
                m.remove((i % n) as usize);
            }
            Some(Change::SignatureOf(o)) => {
                let o = self.base(o)?;
                m.truncate(signed_len);
                m.extend_from_slice(o.get(o.len().checked_sub(64)?..)?);
            }
            Some(Change::FlipAndSign(i, k, w)) => {
                m.truncate(signed_len);
                let n = m.len().max(1);
                *m.get_mut(*i as usize % n)? ^= 1 << (k % 8);
                m = wire::signed(m, self.id(*w));
            }
            Some(Change::ZeroSignature) => {
                m.truncate(signed_len);
                m.extend_from_slice(&[0; 64]);
            }
            Some(Change::SignPart(k, w)) => {
                m.truncate(signed_len);
                let part = m.len().saturating_sub(1 + *k as usize % 80);
                let sig = self.id(*w).sign(&m[..part]);
                m.extend_from_slice(&sig);
            }
            Some(Change::SwapHalves) => m.rotate_left((n / 2) as usize),
        }
        Some(m)
    }

    /// What the layer reported after `bytes` arrived (or after held ones were asked for).
    fn judge(&mut self, bytes: Option<&[u8]>, got: R<Vec<Got>>) -> Result<(), String> {
        let Ok(got) = got else {
            if let (Mode::Complete, Some(b)) = (self.mode, bytes) {
                if let Ok(Decoded::Connect { epk, sig_pk, .. }) = wire::decode(b, None, None) {
                    if self.authentic(b) {
                        self.perhaps.push((sig_pk.to_vec(), epk));
                    }
                }
            }
            return Ok(());
        };
        for g in got {
            match g {
                Got::Connect { key, .. } => {
                    let Some(b) = bytes else {
                        return Err("a CONNECT was reported although none arrived".into());
                    };
                    match wire::decode(b, None, None) {
                        Ok(Decoded::Connect { epk, sig_pk, .. }) => {
                            if key != sig_pk {
                                return Err("a CONNECT was reported with another key than it names".into());
                            }
                            if self.expected.as_ref().is_some_and(|e| e[..] != sig_pk) {
                                return Err(format!(
                                    "a CONNECT naming another key than the expected one (of {} bytes) was accepted",
                                    self.expected.as_ref().map_or(0, |e| e.len())
                                ));
                            }
                            self.accepted = Some((key, epk));
                        }
                        other => return Err(format!("an inauthentic CONNECT was accepted: {:?}", other)),
                    }
                }
                Got::Ack { .. } => {
                    self.authentic_ack(false)?;
                    self.ack_reported = true;
                }
                Got::User { .. } => {
                    self.authentic_ack(true)?;
                }
            }
        }
        Ok(())
    }

    /// Whether, of all that arrived, there is an ACK that may be accepted (`complete`: that allows
    /// the negotiation to complete, for which a CONNECT is needed too). A layer that expects a key
    /// can accept that key's ACK before its CONNECT.
    fn authentic_ack(&self, complete: bool) -> Result<(), String> {
        let Some(own) = self.own_epk else {
            return Err("completed (or an ACK accepted) before the layer's own CONNECT".into());
        };
        let mut signers: Vec<&[u8]> = vec![];
        match (&self.accepted, &self.expected) {
            (Some((_, epk)), _) if complete && *epk == own => {
                return Err("completed with the layer's own ephemeral key".into());
            }
            (Some((k, _)), _) => signers.push(k),
            (None, Some(k)) if !complete => signers.push(k),
            (None, _) => {
                signers.extend(self.perhaps.iter().filter(|(_, e)| !complete || *e != own).map(|(k, _)| &k[..]))
            }
        }
        if signers.is_empty() {
            return Err("completed (or an ACK accepted) without a CONNECT".into());
        }
        let want = sha256(&own);
        for b in &self.arrived {
            for key in &signers {
                if let Ok(Decoded::Ack { challenge, .. }) = wire::decode(b, None, Some(key)) {
                    if challenge == want {
                        return Ok(());
                    }
                }
            }
        }
        Err("an ACK was accepted, or the negotiation completed, although no ACK signed by the peer and \
             answering this layer's key had arrived"
            .into())
    }

    fn authentic(&self, b: &[u8]) -> bool {
        match wire::decode(b, None, None) {
            Ok(Decoded::Connect { sig_pk, .. }) => {
                self.expected.as_ref().is_none_or(|e| e[..] == sig_pk)
            }
            Ok(Decoded::Ack { challenge, .. }) => {
                let k = match (&self.accepted, &self.expected) {
                    (Some((k, _)), _) => k.clone(),
                    (None, Some(e)) => e.clone(),
                    _ => return true,
                };
                Some(challenge) == self.own_epk.map(|e| sha256(&e))
                    && wire::decode(b, None, Some(&k)).is_ok()
            }
            _ => false,
        }
    }
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::new(c.mode, c.expect, c.seed)?;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("step {} {:?}: {}", i, op, e);
        match op {
            Op::Connect => {
                if let Ok(m) = w.layer.connect(None) {
                    let epk = m.get(18..50).map(|e| <[u8; 32]>::try_from(e).unwrap());
                    if let Some(epk) = epk {
                        w.own_epk.get_or_insert(epk);
                        w.peer.see_epk(epk);
                        w.attacker.see_epk(epk);
                    }
                    w.emitted.push(m);
                }
            }
            Op::Ack => {
                if let Ok(m) = w.layer.ack(None) {
                    w.emitted.push(m);
                }
            }
            Op::Take => {
                let g = w.layer.take();
                w.judge(None, g).map_err(at)?;
            }
            Op::Read(b, ch) => {
                let Some(m) = w.make(b, ch) else { continue };
                if !w.authentic(&m) && (w.accepted.is_none() || !w.ack_reported) {
                    obs.nontrivial();
                }
                w.arrived.push(m.clone());
                let g = w.layer.read(&m);
                w.judge(Some(&m), g).map_err(at)?;
            }
        }
    }
    // has it completed? then there was an authentic ACK
    let g = w.layer.take();
    w.judge(None, g).map_err(|e| format!("at the end: {}", e))?;
    let cloned = w.layer.try_clone().is_ok();
    let written = w.layer.write(b"user data").is_ok();
    if cloned || written {
        w.authentic_ack(true).map_err(|e| format!("at the end, negotiated: {}", e))?;
        obs.label("completed");
    } else if w.accepted.is_some() {
        obs.label("CONNECT accepted only");
    } else {
        obs.label("nothing accepted");
    }
    Ok(())
}

fn who() -> impl Strategy<Value = Who> {
    prop_oneof![3 => Just(Who::Peer), 3 => Just(Who::Attacker), 1 => Just(Who::Own)]
}

fn base() -> impl Strategy<Value = Base> {
    let data = || prop_oneof![4 => opt_payload(), 1 => any_payload(20_000).prop_map(Some)];
    prop_oneof![
        4 => data().prop_map(|p| Base::Connect(Who::Peer, Who::Peer, Who::Peer, p)),
        2 => data().prop_map(|p| Base::Connect(Who::Attacker, Who::Attacker, Who::Attacker, p)),
        3 => (who(), who(), who(), data()).prop_map(|(a, b, c, p)| Base::Connect(a, b, c, p)),
        4 => data().prop_map(|p| Base::Ack(Who::Peer, 0, p)),
        2 => data().prop_map(|p| Base::Ack(Who::Attacker, 0, p)),
        3 => (who(), 0u8..8, data()).prop_map(|(w, c, p)| Base::Ack(w, c, p)),
        4 => (0u8..8).prop_map(Base::Recorded),
        3 => (0u8..3).prop_map(Base::Emitted),
        2 => (0u8..8).prop_map(Base::Arrived),
    ]
}

fn change() -> impl Strategy<Value = Option<Change>> {
    let pos = || prop_oneof![3 => 0u32..140, 1 => any::<u32>()];
    prop_oneof![
        10 => Just(None),
        3 => (pos(), 0u8..8).prop_map(|(i, k)| Some(Change::Flip(i, k))),
        1 => (pos(), any::<u8>()).prop_map(|(i, k)| Some(Change::Set(i, k))),
        1 => any::<u16>().prop_map(|k| Some(Change::Truncate(k))),
        1 => proptest::collection::vec(any::<u8>(), 1..70).prop_map(|v| Some(Change::Extend(v))),
        1 => (pos(), any::<u8>()).prop_map(|(i, k)| Some(Change::Insert(i, k))),
        1 => pos().prop_map(|i| Some(Change::Remove(i))),
        2 => base().prop_map(|b| Some(Change::SignatureOf(Box::new(b)))),
        4 => (pos(), 0u8..8, who()).prop_map(|(i, k, w)| Some(Change::FlipAndSign(i, k, w))),
        1 => Just(Some(Change::ZeroSignature)),
        1 => (any::<u8>(), who()).prop_map(|(k, w)| Some(Change::SignPart(k, w))),
        1 => Just(Some(Change::SwapHalves)),
    ]
}

fn expect() -> impl Strategy<Value = Expect> {
    prop_oneof![
        8 => Just(Expect::None),
        8 => Just(Expect::Peer),
        2 => Just(Expect::Attacker),
        1 => Just(Expect::Own),
        4 => (any::<bool>(), any::<u8>()).prop_map(|(p, i)| Expect::Almost(p, i)),
        1 => any::<u8>().prop_map(Expect::Prefix),
        1 => any::<u8>().prop_map(Expect::Longer),
        1 => Just(Expect::Zero),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(i, h)| Expect::Source(i, h)),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => Just(Op::Connect),
        2 => Just(Op::Ack),
        1 => Just(Op::Take),
        12 => (base(), change()).prop_map(|(b, c)| Op::Read(b, c)),
    ]
}

/// An orderly negotiation in which some of the peer's messages are replaced.
fn directed() -> impl Strategy<Value = Vec<Op>> {
    let genuine_c = Op::Read(Base::Connect(Who::Peer, Who::Peer, Who::Peer, None), None);
    let genuine_a = Op::Read(Base::Ack(Who::Peer, 0, None), None);
    (
        0u8..6,
        prop_oneof![4 => Just(None), 3 => (base(), change()).prop_map(Some)],
        prop_oneof![1 => Just(None), 4 => (base(), change()).prop_map(Some)],
        proptest::collection::vec((any::<u16>(), op()), 0..4),
    )
        .prop_map(move |(order, c, a, noise)| {
            let rc = c.map_or(genuine_c.clone(), |(b, ch)| Op::Read(b, ch));
            let ra = a.map_or(genuine_a.clone(), |(b, ch)| Op::Read(b, ch));
            let mut ops = match order {
                0 => vec![Op::Connect, rc, Op::Ack, ra],
                1 => vec![rc, Op::Connect, Op::Ack, ra],
                2 => vec![rc, Op::Connect, ra, Op::Ack],
                3 => vec![Op::Connect, rc, ra, Op::Ack],
                4 => vec![Op::Connect, ra, rc, Op::Take, Op::Ack],
                _ => vec![rc, Op::Ack, Op::Connect, ra],
            };
            for (at, op) in noise {
                let i = at as usize % (ops.len() + 1);
                ops.insert(i, op);
            }
            ops
        })
}

/// Every alteration of one bit, every truncation, and extensions, of a CONNECT or an ACK.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    mode: Mode,
    expect: bool,
    ack: bool,
    data: Option<Payload>,
    /// Byte altered in all eight ways; beyond the message: lengths.
    byte: u32,
    /// For an ACK: arrives before the CONNECT.
    early: bool,
    /// The body altered, then signed by the peer: only the challenge must decide then.
    resign: bool,
}

fn run_bits(c: &Bits, obs: &mut Obs) -> Result<(), String> {
    for bit in 0..8u8 {
        let early = c.ack && c.early;
        let stage = if !c.ack {
            Stage::Sent
        } else if early {
            Stage::Sent
        } else {
            Stage::Both
        };
        let Ok(mut s) = solo(c.mode, &Cfg::default(), c.expect, stage, 77) else { return Ok(()) };
        let d = c.data.as_ref().map(|p| p.bytes());
        let mut m = if c.ack { s.peer.ack(d.as_deref()) } else { s.peer.connect(d.as_deref()) };
        let n = c.byte as usize;
        if n < m.len() {
            if c.resign {
                m.truncate(m.len() - 64);
                if n >= m.len() {
                    return Ok(());
                }
                m[n] ^= 1 << bit;
                m = wire::signed(m, &s.peer.id);
            } else {
                m[n] ^= 1 << bit;
            }
        } else if bit % 2 == 0 {
            m.truncate(n % m.len());
        } else {
            let more = Payload::new(1 + n % 70, bit, n as u64).bytes();
            m.extend_from_slice(&more);
        }
        // with the peer's signature, what the reference accepts is authentic
        let authentic = match wire::decode(&m, None, Some(&s.peer.id.pk())) {
            Ok(Decoded::Connect { sig_pk, .. }) => !c.ack && (!c.expect || sig_pk == s.peer.id.pk()),
            Ok(Decoded::Ack { challenge, .. }) => {
                c.ack && Some(challenge) == s.epk.map(|e| sha256(&e))
            }
            _ => false,
        };
        obs.extra += 1;
        let mut got = s.layer.read(&m);
        if early {
            if let Ok(v) = &got {
                if v.is_empty() {
                    got = s.layer.read_all(&s.peer.connect(None));
                }
            }
        }
        if authentic {
            continue;
        }
        obs.nontrivial();
        if let Ok(v) = got {
            let bad = v.iter().find(|g| match g {
                Got::Ack { .. } => c.ack,
                Got::Connect { .. } => !c.ack,
                Got::User { .. } => true,
            });
            if let Some(g) = bad {
                return Err(format!(
                    "an altered {} (byte {}, bit {}, {}) was accepted: {}",
                    if c.ack { "ACK" } else { "CONNECT" },
                    n,
                    bit,
                    if c.resign { "signed by the peer" } else { "signature unchanged" },
                    g.brief()
                ));
            }
        }
    }
    Ok(())
}

/// A CONNECT or an ACK written by a layer, altered on its way to another layer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Emitted {
    mode: Mode,
    expect: bool,
    ack: bool,
    cfg: Cfg,
    data: Payload,
    /// Bytes altered, one after another, counted from the beginning of the message.
    from: u32,
    step: u32,
    count: u32,
}

fn run_emitted(c: &Emitted, obs: &mut Obs) -> Result<(), String> {
    let pk = Identity::new(own_seed(5, 1)).pk();
    for k in 0..c.count {
        let at = (c.from + k * c.step) as usize;
        entropy::set(5);
        let make = |n, e| Layer::create(c.mode, c.cfg.get(), own_seed(5, n), e);
        let (Ok(mut a), Ok(mut b)) = (make(1, None), make(2, c.expect.then(|| pk.to_vec()))) else { return Ok(()) };
        let d = c.data.bytes();
        let (d1, d2) = if c.ack { (&[][..], &d[..]) } else { (&d[..], &[][..]) };
        let (Ok(ca), Ok(cb)) = (a.connect(Some(d1)), b.connect(None)) else { return Ok(()) };
        if a.read(&cb).is_err() {
            return Ok(());
        }
        let mut m = ca.clone();
        if c.ack {
            if b.read(&ca).is_err() {
                return Ok(());
            }
            let Ok(aa) = a.ack(Some(d2)) else { return Ok(()) };
            m = aa;
        }
        if at >= m.len() {
            return Ok(());
        }
        m[at] ^= 1 << (at % 8);
        obs.extra += 1;
        obs.nontrivial();
        if let Ok(v) = b.read(&m) {
            if let Some(g) = v.first() {
                return Err(format!(
                    "the {} written by a layer, {} bytes long, was accepted with byte {} altered: {}",
                    if c.ack { "ACK" } else { "CONNECT" },
                    m.len(),
                    at,
                    g.brief()
                ));
            }
        }
    }
    Ok(())
}

fn emitted_cases(ctx: &Ctx) -> Vec<Emitted> {
    let mut out = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for (len, kind) in [(0usize, 1u8), (30, 1), (700, 3), (1_100, 1), (5_000, 1), (9_000, 3), (40_000, 1), (300_000, 1)] {
            for ack in [false, true] {
                for min_size in [0, 8192] {
                    let total = len as u32 + 200;
                    let cuts = ctx.pick(48, 600);
                    let step = (total / cuts).max(1);
                    for part in 0..4 {
                        out.push(Emitted {
                            mode,
                            expect: part % 2 == 1,
                            ack,
                            cfg: Cfg { level: 1, min_size, format: 0 },
                            data: Payload::new(len, kind, 3),
                            from: part * step * (cuts / 4),
                            step,
                            count: cuts / 4,
                        });
                    }
                    // the last bytes of the body and the signature
                    if mode == Mode::Minimal || kind == 1 {
                        let head = if ack { 50 } else { 86 };
                        let end = head + len as u32;
                        out.push(Emitted {
                            mode, expect: false, ack,
                            cfg: Cfg { level: 0, min_size: usize::MAX, format: 0 },
                            data: Payload::new(len, kind, 3),
                            from: end.saturating_sub(12),
                            step: 5,
                            count: 16,
                        });
                    }
                }
            }
        }
    }
    out.sort_by_key(|c| c.data.len);
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.each("emitted", emitted_cases(ctx), run_emitted);
    let mut bits = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for expect in [false, true] {
            for (ack, early) in [(false, false), (true, false), (true, true)] {
                for data in [None, Some(Payload::new(40, 1, 3))] {
                    for resign in [false, true] {
                        let n = if ack { 114 } else { 150 } + if data.is_some() { 50 } else { 0 };
                        for byte in 0..n + 60 {
                            bits.push(Bits { mode, expect, ack, data: data.clone(), byte, early, resign });
                        }
                    }
                }
            }
        }
    }
    // large messages: bytes far from the beginning
    for mode in [Mode::Minimal, Mode::Complete] {
        for ack in [false, true] {
            for k in 0..ctx.pick(40u32, 1000) {
                bits.push(Bits {
                    mode,
                    expect: false,
                    ack,
                    data: Some(Payload::new(70_000, 1, 3)),
                    byte: 70_300u32.wrapping_sub(k * 1777) % 70_300,
                    early: false,
                    resign: false,
                });
            }
        }
    }
    ctx.each("every-bit", bits, run_bits);
    let mut expected = vec![];
    for i in 0..dict::get().strings.len() as u16 {
        for how in 0..6 {
            for mode in [Mode::Minimal, Mode::Complete] {
                for (k, who) in [Who::Peer, Who::Attacker, Who::Own].into_iter().enumerate() {
                    let connect = Op::Read(Base::Connect(who, who, who, None), None);
                    let ack = Op::Read(Base::Ack(who, 0, None), None);
                    let ops = match (i as usize + k) % 3 {
                        0 => vec![connect, Op::Connect, ack],
                        1 => vec![Op::Connect, ack, connect, Op::Ack],
                        _ => vec![Op::Connect, connect, Op::Ack, ack],
                    };
                    expected.push(Case { mode, expect: Expect::Source(i, how), seed: i as u64, ops });
                }
            }
        }
    }
    ctx.each("expected-keys-of-the-source", expected, run_case);
    let case = |directed_: bool| {
        move || {
            let ops = if directed_ {
                directed().boxed()
            } else {
                proptest::collection::vec(op(), 1..16).boxed()
            };
            (any_mode(), expect(), 0u64..1 << 40, ops)
                .prop_map(|(mode, expect, seed, ops)| Case { mode, expect, seed, ops })
        }
    };
    ctx.prop("directed", ctx.pick(40_000, 1_500_000), case(true), run_case);
    ctx.prop("any-history", ctx.pick(10_000, 600_000), case(false), run_case);
    ctx.finish(RULE, "exploration", &["Ed25519 and SHA-256 are secure: what the reference verifies was signed by the key's holder"])
}
