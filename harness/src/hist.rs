//! Histories of one layer against a model peer, and the reference state machine.
//!
//! A history is a list of operations: calls of the application and messages that arrive. The
//! messages are made by a model peer (who owns its keys), by an attacker (another identity,
//! altered bytes, reflections, garbage), or are replays. The reference machine, written from
//! the documentation, says for each step what the layer may answer.

use crate::entropy;
use crate::gen::{Cfg, Payload};
use crate::peer::Peer;
use crate::refcrypto::{Identity, SessionKey};
use crate::sut::{seen, Got, Layer, Mode, E, R};
use crate::wire;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Expected {
    /// No expected peer key.
    None,
    /// The model peer's key.
    Peer,
    /// Some other key.
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Setup {
    pub mode: Mode,
    pub cfg: Cfg,
    pub expected: Expected,
    pub seed: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum CV {
    Genuine,
    /// One byte of the signature altered.
    BadSig(u8),
    /// One byte of the signed part behind the key altered (the data, if there is any).
    BadBody(u8),
    /// Names the peer's key, signed by the attacker.
    Forged,
    /// The attacker's own, correctly signed.
    Attacker,
    /// The attacker's own key named, badly signed.
    AttackerBadSig,
    /// Correctly signed, ephemeral key of low order (0 or 1).
    LowOrder(u8),
    /// Correctly signed by the peer, but carrying the layer's own ephemeral key.
    OwnEpk,
    /// Another CONNECT of the peer with another ephemeral key.
    OtherEpk,
    /// Unknown signature algorithm, correctly signed.
    SigAlgo,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum AV {
    Genuine,
    BadSig(u8),
    Forged,
    /// Signed by the peer, challenge altered at a byte.
    BadChallenge(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum UV {
    Genuine,
    /// Genuine, with no data at all.
    Bare,
    /// One byte of the encrypted message altered.
    Tampered(u16),
    Clear,
    WrongKey,
    /// Encrypted by the peer, hash altered.
    BadHash,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Garbage {
    Empty,
    ShortMagic,
    BadVersion,
    UnknownType,
    Noise(u8),
    /// A correct CONNECT or ACK of the peer, but encrypted with the session key.
    EncryptedConnect,
    EncryptedAck,
    /// Header announces more than there is.
    Overlong,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Msg {
    Connect(Option<Payload>, CV),
    Ack(Option<Payload>, AV),
    User(u64, Payload, UV),
    /// A message the layer itself emitted.
    Own(u8),
    /// A message that arrived before.
    Again(u8),
    /// A user message that arrived before.
    AgainUser(u16),
    Garbage(Garbage),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Op {
    Connect(Option<Payload>),
    Ack(Option<Payload>),
    Write(Payload),
    /// Through a writer that fails once it has taken so many bytes, in one of four ways.
    BadWrite(Payload, u16, u8),
    Clone,
    Config(Cfg),
    Take,
    Drain,
    /// Typed write in a format without typed encoding (complete mode).
    TypedRaw(u8),
    Recv(Msg),
}

/// What the layer may answer.
#[derive(Clone, Debug, PartialEq)]
pub enum Allow {
    /// This, exactly.
    Ok(Vec<Got>),
    /// A local call succeeds.
    Done,
    /// An error that changes nothing.
    Harmless,
    /// An error after which the layer has failed.
    Fatal,
    /// The layer has failed: nothing is delivered, whatever is returned.
    Nothing,
    /// The layer has failed: an error.
    Refused,
    /// Not specified; the history ends here.
    Open,
    /// Not specified here, and of no consequence for what follows.
    Any,
}

#[derive(Clone, Debug)]
pub enum Sem {
    Connect { key: Vec<u8>, sig_ok: bool, own_epk: bool, low: bool, same_epk_as_peer: bool, data: Option<Vec<u8>> },
    Ack { challenge_ok: bool, signer: Option<Vec<u8>>, data: Option<Vec<u8>> },
    User { encrypted: bool, opens: bool, nonce: u64, hash_ok: bool, data: Option<Vec<u8>> },
    Undecodable,
    /// Encrypted form: undecodable without key, misplaced encryption with it.
    Misencrypted,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum With {
    Nobody,
    Peer,
    Attacker,
}

#[derive(Clone)]
pub struct Model {
    pub mode: Mode,
    pub failed: bool,
    pub local: u8,
    pub remote: u8,
    pub nego: bool,
    pub peer_key: Option<Vec<u8>>,
    pub early: Option<(Option<Vec<u8>>, Option<Vec<u8>>)>,
    pub held: Vec<(u64, Option<Vec<u8>>)>,
    pub next: u64,
    pub orphans: BTreeSet<u64>,
    pub cloned: bool,
    pub keyed: bool,
    /// Whose ephemeral key the session key is shared with.
    pub with: With,
}

pub const MAX_ORPHANS: usize = 10_000;

impl Model {
    pub fn new(mode: Mode, expected: Option<Vec<u8>>) -> Model {
        Model {
            mode,
            failed: false,
            local: 0,
            remote: 0,
            nego: false,
            peer_key: expected,
            early: None,
            held: vec![],
            next: 0,
            orphans: BTreeSet::new(),
            cloned: false,
            keyed: false,
            with: With::Nobody,
        }
    }
    fn fail(&mut self) -> Allow {
        self.failed = true;
        Allow::Fatal
    }
    fn shown(&self, d: &Option<Vec<u8>>) -> Option<Vec<u8>> {
        seen(self.mode, d.as_deref())
    }
    fn note(&mut self, nonce: u64) {
        if nonce == self.next {
            self.next += 1;
            while self.orphans.remove(&self.next) {
                self.next += 1;
            }
        } else {
            self.orphans.insert(nonce);
        }
    }
    pub fn local_op(&mut self, op: &Op) -> Allow {
        match op {
            Op::Connect(_) => {
                if self.failed {
                    Allow::Refused
                } else if self.nego || self.local != 0 {
                    Allow::Harmless
                } else {
                    self.local = 1;
                    Allow::Done
                }
            }
            Op::Ack(_) => {
                if self.failed {
                    Allow::Refused
                } else if self.nego || self.remote != 1 {
                    Allow::Harmless
                } else {
                    if self.local == 2 {
                        self.nego = true;
                    }
                    self.remote = 2;
                    Allow::Done
                }
            }
            Op::Write(_) => {
                if self.failed {
                    Allow::Refused
                } else if self.nego {
                    Allow::Done
                } else {
                    self.fail()
                }
            }
            Op::BadWrite(..) => {
                if self.failed {
                    Allow::Refused
                } else if self.nego {
                    Allow::Any
                } else {
                    self.fail()
                }
            }
            Op::Clone => {
                if self.failed {
                    Allow::Refused
                } else if self.nego {
                    self.cloned = true;
                    Allow::Done
                } else {
                    Allow::Harmless
                }
            }
            Op::Config(_) => {
                if self.failed {
                    Allow::Open
                } else if self.cloned {
                    Allow::Harmless
                } else {
                    Allow::Done
                }
            }
            Op::TypedRaw(_) => {
                if self.failed {
                    Allow::Refused
                } else {
                    Allow::Harmless
                }
            }
            Op::Take => {
                if self.mode == Mode::Complete {
                    return Allow::Ok(vec![]);
                }
                if self.failed {
                    return Allow::Nothing;
                }
                if self.peer_key.is_none() {
                    return Allow::Ok(vec![]);
                }
                match self.early.take() {
                    None => Allow::Ok(vec![]),
                    Some((signer, data)) => {
                        self.recv(&Sem::Ack { challenge_ok: true, signer, data })
                    }
                }
            }
            Op::Drain => {
                if self.mode == Mode::Complete {
                    return Allow::Ok(vec![]);
                }
                if self.failed {
                    return Allow::Nothing;
                }
                if !self.nego {
                    return Allow::Ok(vec![]);
                }
                Allow::Ok(self.drain())
            }
            Op::Recv(_) => unreachable!(),
        }
    }
    fn drain(&mut self) -> Vec<Got> {
        let held = std::mem::take(&mut self.held);
        held.into_iter()
            .map(|(n, d)| {
                self.note(n);
                Got::User { data: self.shown(&d) }
            })
            .collect()
    }
    pub fn recv(&mut self, m: &Sem) -> Allow {
        if self.failed {
            return Allow::Nothing;
        }
        match m {
            Sem::Undecodable | Sem::Misencrypted => self.fail(),
            Sem::Connect { key, sig_ok, own_epk, low, same_epk_as_peer, data } => {
                if self.peer_key.as_ref().is_some_and(|k| k != key) || !sig_ok {
                    return Allow::Harmless;
                }
                if *own_epk || self.nego || self.remote != 0 || *low {
                    return self.fail();
                }
                self.remote = 1;
                self.keyed = true;
                self.with = if *same_epk_as_peer { With::Peer } else { With::Attacker };
                self.peer_key = Some(key.clone());
                let mut out = vec![Got::Connect { key: key.clone(), data: self.shown(data) }];
                if self.mode == Mode::Complete {
                    if let Some((signer, data)) = self.early.take() {
                        match self.recv(&Sem::Ack { challenge_ok: true, signer, data }) {
                            Allow::Ok(v) => out.extend(v),
                            Allow::Harmless => {}
                            other => return other,
                        }
                    }
                }
                Allow::Ok(out)
            }
            Sem::Ack { challenge_ok, signer, data } => {
                if !challenge_ok {
                    return Allow::Harmless;
                }
                let Some(pk) = &self.peer_key else {
                    if self.early.is_some() {
                        return self.fail();
                    }
                    self.early = Some((signer.clone(), data.clone()));
                    return Allow::Ok(vec![]);
                };
                if signer.as_ref() != Some(pk) {
                    return Allow::Harmless;
                }
                if self.nego || self.local != 1 {
                    return self.fail();
                }
                self.local = 2;
                let mut out = vec![Got::Ack { data: self.shown(data) }];
                if self.remote == 2 {
                    self.nego = true;
                    if self.mode == Mode::Complete {
                        out.extend(self.drain());
                    }
                }
                Allow::Ok(out)
            }
            Sem::User { encrypted, opens, nonce, hash_ok, data } => {
                if !encrypted || !self.keyed || !opens {
                    return self.fail();
                }
                if *nonce < self.next
                    || self.orphans.contains(nonce)
                    || self.held.iter().any(|h| h.0 == *nonce)
                {
                    return Allow::Harmless;
                }
                if !self.nego {
                    if self.local == 1 && self.remote == 2 {
                        if !hash_ok {
                            return Allow::Open;
                        }
                        self.held.push((*nonce, data.clone()));
                        return Allow::Ok(vec![]);
                    }
                    return self.fail();
                }
                if !hash_ok {
                    return Allow::Open;
                }
                if *nonce != self.next && self.orphans.len() >= MAX_ORPHANS {
                    return self.fail();
                }
                self.note(*nonce);
                Allow::Ok(vec![Got::User { data: self.shown(data) }])
            }
        }
    }
}

/// One layer with its model peer and the attacker.
pub struct World {
    pub layer: Layer,
    pub model: Model,
    pub peer: Peer,
    pub attacker: Peer,
    pub own_id: [u8; 32],
    pub own_epk: Option<[u8; 32]>,
    /// What the layer emitted.
    pub emitted: Vec<(Vec<u8>, Sem)>,
    /// What arrived.
    pub arrived: Vec<(Vec<u8>, Sem)>,
    pub next_own: u64,
    /// Everything the layer wrote, user messages included.
    pub outbox: Vec<Vec<u8>>,
}

impl World {
    pub fn new(s: &Setup) -> Result<World, String> {
        World::with_identities(s, None)
    }

    /// With identities that may be those of other worlds.
    pub fn with_identities(s: &Setup, ids: Option<u64>) -> Result<World, String> {
        entropy::set(s.seed);
        let zipped = s.mode == Mode::Complete;
        let mut peer = Peer::new(s.seed.wrapping_mul(2).wrapping_add(1), zipped);
        if let Some(i) = ids {
            peer.id = Identity::of(i);
        }
        if let Some(k) = crate::keypairs::now_and_then(s.seed) {
            entropy::push_fixed(&k.0);
            peer = peer.keyed(k.1);
        }
        let attacker = Peer::new(s.seed ^ 0xA77A_C4E5_0000_0000, zipped);
        let expected = match s.expected {
            Expected::None => None,
            Expected::Peer => Some(peer.id.pk().to_vec()),
            Expected::Other => Some(Identity::of(s.seed ^ 0x0777).pk().to_vec()),
        };
        let own_id = crate::refcrypto::sha256(&[&b"own"[..], &ids.unwrap_or(s.seed).to_be_bytes()].concat());
        let layer = Layer::create(s.mode, s.cfg.get(), own_id, expected.clone())
            .map_err(|e| format!("create: {}", e))?;
        Ok(World {
            layer,
            model: Model::new(s.mode, expected),
            peer,
            attacker,
            own_id,
            own_epk: None,
            emitted: vec![],
            arrived: vec![],
            next_own: 0,
            outbox: vec![],
        })
    }

    fn data(&self, p: &Option<Payload>) -> Option<Vec<u8>> {
        p.as_ref().map(|p| p.bytes())
    }

    /// The session key the layer has, if it has one.
    pub fn session_key(&self) -> Option<SessionKey> {
        match self.model.with {
            With::Nobody => None,
            With::Peer => self.peer.key,
            With::Attacker => {
                self.own_epk.map(|epk| SessionKey::derive(&self.attacker.sk, &epk))
            }
        }
    }
    /// Whether the model calls this operation harmless now; its bytes if it is a message.
    pub fn peek(&self, op: &Op) -> Option<(Allow, Option<Vec<u8>>)> {
        let mut m = self.model.clone();
        match op {
            Op::Recv(msg) => {
                let (b, sem) = self.make(msg)?;
                Some((m.recv(&sem), Some(b)))
            }
            op => Some((m.local_op(op), None)),
        }
    }
    fn opens(&self, bytes: &[u8]) -> bool {
        self.session_key().is_some_and(|k| k.open(bytes).is_some())
    }

    fn again(&self, m: &(Vec<u8>, Sem)) -> (Vec<u8>, Sem) {
        let (b, s) = m.clone();
        // whether it opens may have changed: a key may have come since
        let s = match s {
            Sem::User { encrypted, nonce, hash_ok, data, .. } => {
                Sem::User { encrypted, opens: self.opens(&b), nonce, hash_ok, data }
            }
            s => s,
        };
        (b, s)
    }

    /// The bytes of a message and what they mean, or nothing if it cannot be made yet.
    pub fn make(&self, m: &Msg) -> Option<(Vec<u8>, Sem)> {
        let peer_pk = self.peer.id.pk();
        match m {
            Msg::Connect(p, v) => {
                let data = self.data(p);
                let body = |epk: &[u8; 32], pk: &[u8; 32]| {
                    wire::connect_body(epk, pk, &self.peer.pack(data.as_deref()))
                };
                let sem = |key: &[u8; 32], sig_ok: bool| Sem::Connect {
                    key: key.to_vec(),
                    sig_ok,
                    own_epk: false,
                    low: false,
                    same_epk_as_peer: true,
                    data: data.clone(),
                };
                let with = |s: Sem, own: bool, l: bool, same: bool| match s {
                    Sem::Connect { key, sig_ok, data, .. } => Sem::Connect {
                        key,
                        sig_ok,
                        own_epk: own,
                        low: l,
                        same_epk_as_peer: same,
                        data,
                    },
                    s => s,
                };
                let good = wire::signed(body(&self.peer.epk, &peer_pk), &self.peer.id);
                Some(match v {
                    CV::Genuine => (good, sem(&peer_pk, true)),
                    CV::BadSig(i) => {
                        let mut b = good;
                        let n = b.len() - 64 + (*i as usize % 64);
                        b[n] ^= 1 << (i % 8);
                        (b, sem(&peer_pk, false))
                    }
                    CV::BadBody(i) => {
                        // ephemeral key (18..50) or data; never the length or the identity key
                        let mut b = good;
                        let end = b.len() - 64;
                        let spots: Vec<usize> = (18..50).chain(86..end).collect();
                        let n = spots[*i as usize % spots.len()];
                        b[n] ^= 1 << (i % 7);
                        (b, sem(&peer_pk, false))
                    }
                    CV::Forged => (
                        wire::signed(body(&self.attacker.epk, &peer_pk), &self.attacker.id),
                        sem(&peer_pk, false),
                    ),
                    CV::Attacker => (
                        wire::signed(
                            body(&self.attacker.epk, &self.attacker.id.pk()),
                            &self.attacker.id,
                        ),
                        with(sem(&self.attacker.id.pk(), true), false, false, false),
                    ),
                    CV::AttackerBadSig => {
                        let mut b = wire::signed(
                            body(&self.attacker.epk, &self.attacker.id.pk()),
                            &self.attacker.id,
                        );
                        let n = b.len() - 1;
                        b[n - 40] ^= 4;
                        (b, with(sem(&self.attacker.id.pk(), false), false, false, false))
                    }
                    CV::LowOrder(k) => {
                        let mut epk = [0u8; 32];
                        epk[0] = k % 2;
                        (
                            wire::signed(body(&epk, &peer_pk), &self.peer.id),
                            with(sem(&peer_pk, true), false, true, false),
                        )
                    }
                    CV::OwnEpk => {
                        let epk = self.own_epk?;
                        (
                            wire::signed(body(&epk, &peer_pk), &self.peer.id),
                            with(sem(&peer_pk, true), true, false, false),
                        )
                    }
                    CV::OtherEpk => {
                        let epk = crate::refcrypto::x25519_base(&self.attacker.sk);
                        (
                            wire::signed(body(&epk, &peer_pk), &self.peer.id),
                            with(sem(&peer_pk, true), false, false, false),
                        )
                    }
                    CV::SigAlgo => {
                        let mut b = body(&self.peer.epk, &peer_pk);
                        b[53] = 7;
                        (wire::signed(b, &self.peer.id), Sem::Undecodable)
                    }
                })
            }
            Msg::Ack(p, v) => {
                let data = self.data(p);
                let own = self.own_epk?;
                let body = wire::ack_body(&own, &self.peer.pack(data.as_deref()));
                let sem = |c: bool, s: Option<[u8; 32]>| Sem::Ack {
                    challenge_ok: c,
                    signer: s.map(|s| s.to_vec()),
                    data: data.clone(),
                };
                Some(match v {
                    AV::Genuine => {
                        (wire::signed(body, &self.peer.id), sem(true, Some(peer_pk)))
                    }
                    AV::BadSig(i) => {
                        let mut b = wire::signed(body, &self.peer.id);
                        let n = b.len() - 64 + (*i as usize % 64);
                        b[n] ^= 1 << (i % 8);
                        (b, sem(true, None))
                    }
                    AV::Forged => (
                        wire::signed(body, &self.attacker.id),
                        sem(true, Some(self.attacker.id.pk())),
                    ),
                    AV::BadChallenge(i) => {
                        let mut b = body;
                        b[18 + (*i as usize % 32)] ^= 1 << (i % 8);
                        (wire::signed(b, &self.peer.id), sem(false, Some(peer_pk)))
                    }
                })
            }
            Msg::User(nonce, p, v) => {
                let key = self.peer.key?;
                let data = (*v != UV::Bare).then(|| p.bytes());
                let packed = self.peer.pack(data.as_deref());
                let sem = |b: Vec<u8>, encrypted: bool, hash_ok: bool| {
                    let opens = self.opens(&b);
                    (b, Sem::User { encrypted, opens, nonce: *nonce, hash_ok, data: data.clone() })
                };
                let plain = wire::hashed(wire::user_body(*nonce, &packed));
                Some(match v {
                    UV::Genuine | UV::Bare => sem(key.seal(&plain), true, true),
                    UV::Tampered(i) => {
                        let mut b = key.seal(&plain);
                        // not in the first four bytes, to be sure not to make a magic value
                        let n = 4 + *i as usize % (b.len() - 4);
                        b[n] ^= 1 << (i % 8);
                        sem(b, true, true)
                    }
                    UV::Clear => sem(plain, false, true),
                    UV::WrongKey => {
                        let k = crate::refcrypto::SessionKey::derive(
                            &self.attacker.sk,
                            &self.own_epk?,
                        );
                        sem(k.seal(&plain), true, true)
                    }
                    UV::BadHash => {
                        let mut b = plain;
                        let n = b.len() - 1;
                        b[n] ^= 1;
                        sem(key.seal(&b), true, false)
                    }
                })
            }
            Msg::Own(i) => {
                if self.emitted.is_empty() {
                    return None;
                }
                Some(self.emitted[*i as usize % self.emitted.len()].clone())
            }
            Msg::Again(i) => {
                if self.arrived.is_empty() {
                    return None;
                }
                Some(self.again(&self.arrived[*i as usize % self.arrived.len()]))
            }
            Msg::AgainUser(i) => {
                let users: Vec<_> = self
                    .arrived
                    .iter()
                    .filter(|a| matches!(a.1, Sem::User { .. }))
                    .collect();
                if users.is_empty() {
                    return None;
                }
                Some(self.again(users[*i as usize % users.len()]))
            }
            Msg::Garbage(g) => Some((
                match g {
                    Garbage::Empty => vec![],
                    Garbage::ShortMagic => wire::MAGIC.to_vec(),
                    Garbage::BadVersion => {
                        let mut b = self.peer.connect(None);
                        b[7] = 2;
                        b
                    }
                    Garbage::UnknownType => {
                        let mut b = self.peer.connect(None);
                        b[17] = 9;
                        b
                    }
                    Garbage::Noise(n) => {
                        let mut v = Payload::new(*n as usize, 1, *n as u64).bytes();
                        if let Some(b) = v.first_mut() {
                            *b = 0;
                        }
                        v
                    }
                    Garbage::EncryptedConnect => self.peer.key?.seal(&self.peer.connect(None)),
                    Garbage::EncryptedAck => self.peer.key?.seal(&self.peer.ack(None)),
                    Garbage::Overlong => {
                        let mut b = self.peer.connect(None);
                        b[14] = 3;
                        b
                    }
                },
                Sem::Undecodable,
            )),
        }
    }

    /// Runs one operation on the layer. Nothing if the operation makes no sense yet.
    pub fn step(&mut self, op: &Op) -> Option<(Allow, R<Vec<Got>>)> {
        match op {
            Op::Recv(m) => {
                let (bytes, sem) = self.make(m)?;
                let allow = self.model.recv(&sem);
                let got = self.layer.read(&bytes);
                self.arrived.push((bytes, sem));
                Some((allow, got))
            }
            _ => {
                if let Op::TypedRaw(f) = op {
                    return self.typed_raw(*f);
                }
                let allow = self.model.local_op(op);
                let got = match op {
                    Op::Connect(p) => {
                        let d = self.data(p);
                        self.layer.connect(d.as_deref()).map(|b| {
                            let epk: Option<[u8; 32]> =
                                b.get(18..50).map(|e| e.try_into().unwrap());
                            self.own_epk = epk;
                            if let Some(epk) = epk {
                                self.peer.see_epk(epk);
                            }
                            let sem = Sem::Connect {
                                key: Identity::new(self.own_id).pk().to_vec(),
                                sig_ok: true,
                                own_epk: true,
                                low: false,
                                same_epk_as_peer: false,
                                data: d.clone(),
                            };
                            self.outbox.push(b.clone());
                            self.emitted.push((b, sem));
                            vec![]
                        })
                    }
                    Op::Ack(p) => {
                        let d = self.data(p);
                        self.layer.ack(d.as_deref()).map(|b| {
                            let sem = Sem::Ack {
                                challenge_ok: false,
                                signer: Some(Identity::new(self.own_id).pk().to_vec()),
                                data: d.clone(),
                            };
                            self.outbox.push(b.clone());
                            self.emitted.push((b, sem));
                            vec![]
                        })
                    }
                    Op::Write(p) => {
                        let d = p.bytes();
                        let nonce = self.next_own;
                        self.layer.write(&d).map(|b| {
                            self.next_own = nonce + 1;
                            self.outbox.push(b);
                            vec![]
                        })
                    }
                    Op::BadWrite(p, at, kind) => {
                        let d = p.bytes();
                        let mut sink = crate::sink::Sink::failing(*at as usize, *kind);
                        let r = self.layer.write_to(&d, &mut sink);
                        self.outbox.push(sink.got);
                        if allow == Allow::Any && r.is_err() {
                            // an error while writing a user message fails the layer
                            self.model.failed = true;
                        }
                        r.map(|_| vec![])
                    }
                    Op::Clone => self.layer.try_clone().map(|_| vec![]),
                    Op::Config(c) => self.layer.change_config(c.get()).map(|_| vec![]),
                    Op::Take => self.layer.take(),
                    Op::Drain => self.layer.drain(),
                    Op::TypedRaw(_) | Op::Recv(_) => unreachable!(),
                };
                Some((allow, got))
            }
        }
    }

    fn typed_raw(&mut self, f: u8) -> Option<(Allow, R<Vec<Got>>)> {
        // only where the configuration in force has no typed encoding
        let _ = f;
        let Layer::Full(l) = &mut self.layer else { return None };
        let allow = self.model.local_op(&Op::TypedRaw(f));
        let mut w = std::io::BufWriter::new(Vec::new());
        let r = crate::sut::catch(|| match f % 3 {
            0 => l.write(&7u32, &mut w),
            1 => l.write_connect_msg(Some(&7u32), &mut w),
            _ => l.write_ack_msg(Some(&7u32), &mut w),
        });
        Some((allow, r.map(|_| vec![])))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// A failed layer delivered something or accepted a call.
    AfterFail,
    /// Accepted what had to be refused.
    WrongAccept,
    /// Refused (or panicked on) what had to be accepted.
    WrongReject,
    /// Delivered something else than expected.
    WrongData,
    /// Panicked where an error was due.
    Panic,
}

pub struct Mismatch {
    pub kind: Kind,
    /// The operation, and whether the layer was negotiated before it (by the model).
    pub op: Op,
    pub nego_before: bool,
    pub allow: Allow,
    pub what: String,
}

pub fn compare(allow: &Allow, got: &R<Vec<Got>>) -> Option<(Kind, String)> {
    let show = |v: &Vec<Got>| v.iter().map(|g| g.brief()).collect::<Vec<_>>().join(", ");
    if let Err(E::Panic(p)) = got {
        return match allow {
            Allow::Ok(_) | Allow::Done => Some((Kind::WrongReject, format!("panicked: {}", p))),
            _ => Some((Kind::Panic, format!("panicked: {}", p))),
        };
    }
    match (allow, got) {
        (Allow::Open | Allow::Any, _) => None,
        (Allow::Ok(want), Ok(have)) => (want != have).then(|| {
            (Kind::WrongData, format!("delivered [{}], expected [{}]", show(have), show(want)))
        }),
        (Allow::Ok(want), Err(e)) => {
            Some((Kind::WrongReject, format!("refused with {}, expected [{}]", e, show(want))))
        }
        (Allow::Done, Ok(_)) => None,
        (Allow::Done, Err(e)) => Some((Kind::WrongReject, format!("refused with {}", e))),
        (Allow::Harmless | Allow::Fatal, Ok(v)) => {
            Some((Kind::WrongAccept, format!("accepted (delivering [{}]), an error was due", show(v))))
        }
        (Allow::Harmless | Allow::Fatal, Err(_)) => None,
        (Allow::Nothing, Ok(v)) => (!v.is_empty())
            .then(|| (Kind::AfterFail, format!("a failed layer delivered [{}]", show(v)))),
        (Allow::Nothing, Err(_)) => None,
        (Allow::Refused, Ok(_)) => Some((Kind::AfterFail, "a failed layer accepted the call".into())),
        (Allow::Refused, Err(_)) => None,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct History {
    pub setup: Setup,
    pub ops: Vec<Op>,
}

/// What a history went through.
#[derive(Default)]
pub struct Trace {
    pub steps: usize,
    pub skipped: usize,
    pub harmless: usize,
    pub fatal_at: Option<usize>,
    pub after_fail: usize,
    pub delivered: usize,
    pub nego: bool,
    pub held: usize,
    pub early: bool,
}

/// Runs a history; the first step at which the layer answers something the model does not allow.
pub fn run(h: &History) -> Result<(Trace, Option<Mismatch>), String> {
    let mut w = World::new(&h.setup)?;
    let mut t = Trace::default();
    for (i, op) in h.ops.iter().enumerate() {
        let was_failed = w.model.failed;
        let nego_before = w.model.nego;
        let Some((allow, got)) = w.step(op) else {
            t.skipped += 1;
            continue;
        };
        t.steps += 1;
        if was_failed {
            t.after_fail += 1;
        }
        match &allow {
            Allow::Harmless => t.harmless += 1,
            Allow::Fatal => {
                t.fatal_at.get_or_insert(i);
            }
            Allow::Ok(v) => t.delivered += v.len(),
            _ => {}
        }
        t.held = t.held.max(w.model.held.len());
        t.early |= w.model.early.is_some();
        t.nego |= w.model.nego;
        if let Some((kind, what)) = compare(&allow, &got) {
            let what = format!("step {} {:?}: {}", i, op, what);
            return Ok((t, Some(Mismatch { kind, op: op.clone(), nego_before, allow, what })));
        }
        if allow == Allow::Open && !matches!(op, Op::Config(_)) {
            break;
        }
    }
    Ok((t, None))
}

pub mod strat {
    //! Generators of histories.
    use super::*;
    use crate::gen::*;
    use proptest::prelude::*;

    pub fn setup() -> impl Strategy<Value = Setup> {
        (
            any_mode(),
            prop_oneof![3 => Just(Cfg::default()), 1 => any_cfg()],
            prop_oneof![4 => Just(Expected::None), 4 => Just(Expected::Peer), 1 => Just(Expected::Other)],
            0u64..1_000_000,
        )
            .prop_map(|(mode, mut cfg, expected, seed)| {
                // typed writes in these histories are those without typed encoding
                cfg.format %= 2;
                Setup { mode, cfg, expected, seed }
            })
    }

    pub fn cv() -> impl Strategy<Value = CV> {
        prop_oneof![
            12 => Just(CV::Genuine),
            2 => any::<u8>().prop_map(CV::BadSig),
            2 => any::<u8>().prop_map(CV::BadBody),
            2 => Just(CV::Forged),
            1 => Just(CV::Attacker),
            2 => Just(CV::AttackerBadSig),
            1 => any::<u8>().prop_map(|k| CV::LowOrder(k % 2)),
            1 => Just(CV::OwnEpk),
            1 => Just(CV::OtherEpk),
            1 => Just(CV::SigAlgo),
        ]
    }
    pub fn av() -> impl Strategy<Value = AV> {
        prop_oneof![
            8 => Just(AV::Genuine),
            2 => any::<u8>().prop_map(AV::BadSig),
            1 => Just(AV::Forged),
            2 => any::<u8>().prop_map(AV::BadChallenge),
        ]
    }
    pub fn uv() -> impl Strategy<Value = UV> {
        prop_oneof![
            14 => Just(UV::Genuine),
            1 => Just(UV::Bare),
            1 => any::<u16>().prop_map(UV::Tampered),
            1 => Just(UV::Clear),
            1 => Just(UV::WrongKey),
            1 => Just(UV::BadHash),
        ]
    }
    pub fn garbage() -> impl Strategy<Value = Garbage> {
        prop_oneof![
            Just(Garbage::Empty),
            Just(Garbage::ShortMagic),
            Just(Garbage::BadVersion),
            Just(Garbage::UnknownType),
            any::<u8>().prop_map(Garbage::Noise),
            Just(Garbage::EncryptedConnect),
            Just(Garbage::EncryptedAck),
            Just(Garbage::Overlong),
        ]
    }
    pub fn nonce() -> impl Strategy<Value = u64> {
        prop_oneof![
            20 => 0u64..6,
            2 => 0u64..40,
            1 => near_source(usize::MAX).prop_map(|n| n as u64),
            1 => proptest::sample::select(vec![255u64, 256, 65_536, 1 << 32, u64::MAX - 1, u64::MAX]),
        ]
    }
    pub fn msg() -> impl Strategy<Value = Msg> {
        prop_oneof![
            4 => (opt_payload(), cv()).prop_map(|(p, v)| Msg::Connect(p, v)),
            4 => (opt_payload(), av()).prop_map(|(p, v)| Msg::Ack(p, v)),
            8 => (nonce(), small_payload(), uv()).prop_map(|(n, p, v)| Msg::User(n, p, v)),
            1 => any::<u8>().prop_map(|i| Msg::Own(i % 4)),
            2 => any::<u16>().prop_map(Msg::AgainUser),
            2 => any::<u8>().prop_map(|i| Msg::Again(i % 8)),
            1 => garbage().prop_map(Msg::Garbage),
        ]
    }
    /// Messages that are never fatal by themselves in a reasonable order.
    pub fn good_msg() -> impl Strategy<Value = Msg> {
        prop_oneof![
            2 => opt_payload().prop_map(|p| Msg::Connect(p, CV::Genuine)),
            2 => opt_payload().prop_map(|p| Msg::Ack(p, AV::Genuine)),
            5 => (nonce(), small_payload()).prop_map(|(n, p)| Msg::User(n, p, UV::Genuine)),
            1 => (nonce(), small_payload()).prop_map(|(n, p)| Msg::User(n, p, UV::Bare)),
        ]
    }
    pub fn op() -> impl Strategy<Value = Op> {
        prop_oneof![
            3 => opt_payload().prop_map(Op::Connect),
            3 => opt_payload().prop_map(Op::Ack),
            2 => small_payload().prop_map(Op::Write),
            1 => (small_payload(), prop_oneof![0u16..70, any::<u16>()], any::<u8>()).prop_map(|(p, at, k)| Op::BadWrite(p, at, k % 3)),
            1 => Just(Op::Clone),
            1 => any_cfg().prop_map(|mut c| { c.format %= 2; Op::Config(c) }),
            1 => Just(Op::Take),
            1 => Just(Op::Drain),
            1 => any::<u8>().prop_map(|f| Op::TypedRaw(f % 3)),
            12 => msg().prop_map(Op::Recv),
        ]
    }
    /// Orderly beginning of a session: any prefix of one of the legal orders of the four
    /// negotiation steps of this side (and the arrival of an early ACK or early user messages).
    pub fn prefix() -> impl Strategy<Value = Vec<Op>> {
        let orders: Vec<Vec<u8>> = vec![
            vec![b'c', b'C', b'a', b'A'],
            vec![b'C', b'c', b'a', b'A'],
            vec![b'C', b'a', b'c', b'A'],
            vec![b'c', b'C', b'A', b'a'],
            vec![b'C', b'c', b'A', b'a'],
            vec![b'c', b'A', b'C', b'a'],
        ];
        (
            proptest::sample::select(orders),
            0usize..5,
            proptest::collection::vec(opt_payload(), 4),
            any::<bool>(),
        )
            .prop_map(|(o, n, p, full)| {
                let n = if full { 4 } else { n };
                o.into_iter()
                    .take(n)
                    .zip(p)
                    .map(|(k, p)| match k {
                        b'c' => Op::Connect(p),
                        b'a' => Op::Ack(p),
                        b'C' => Op::Recv(Msg::Connect(p, CV::Genuine)),
                        _ => Op::Recv(Msg::Ack(p, AV::Genuine)),
                    })
                    .collect()
            })
    }
    /// Orderly prefix with noise mixed in, then anything.
    pub fn history(max: usize) -> impl Strategy<Value = History> {
        (
            setup(),
            prefix(),
            proptest::collection::vec(op(), 0..max),
            proptest::collection::vec((any::<u16>(), op()), 0..3),
        )
            .prop_map(|(setup, mut ops, tail, noise)| {
                for (at, op) in noise {
                    let i = at as usize % (ops.len() + 1);
                    ops.insert(i, op);
                }
                ops.extend(tail);
                History { setup, ops }
            })
    }
}
