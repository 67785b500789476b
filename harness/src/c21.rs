//! C21: memory stays in proportion to what must be kept.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::Identity;
use crate::scan;
use crate::setup::own_seed;
use crate::sut::Mode;
use crate::values::{self, Val};
use crate::wire;
use pkstl::{IncomingBinaryMessage, IncomingMessage, Message, MinimalSecureLayer, SecureLayer, Seed32};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::BufWriter;
use std::panic::{catch_unwind, AssertUnwindSafe};

const RULE: &str = "the program's allocator counts what pkstl allocates and frees. Histories of a layer and its clones: messages \
 in order, with gaps, repeated, early, forged, malformed under the right keys, announcing lengths up to 2^64-1, deflated \
 a thousandfold, typed data announcing long sequences; writes, failing writes, refused calls, clones and drops; traffic of up to \
 60,000 such events, and thousands of sessions one after the other. After each call what the layers hold is at most 8 KiB per handle, twice the bytes of the messages held \
 early (counted by what the calls returned) and 128 bytes for each number that ever waited at once; within a call at most 3 MiB, 32 times \
 the message and 8 times what its data inflate to are needed; when all handles are dropped nothing is held. Non-trivial: a message was delivered \
 or refused, and a layer negotiated.";

const PER_HANDLE: usize = 8 << 10;
const PER_CALL: usize = 3 << 20;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Bad {
    /// A CONNECT with a wrong signature.
    Connect(Payload),
    /// An ACK with a wrong challenge or a wrong signature.
    Ack(Payload, bool),
    /// Not sealed with the key.
    Noise(Payload),
    /// A user message, cut.
    Cut(Payload, u16),
    /// A clear message of this type announcing that length.
    Clear(u8, u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Body {
    Plain(Payload),
    /// As it is, without deflating it.
    Raw(Payload),
    /// Zeros, deflated: kB, and how many bytes of the stream are cut off.
    Zeros(u16, u8),
    Typed(Val, u8),
    /// A sequence of a typed format that announces this many items and has few of them.
    Announces(u8, u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Connect,
    Ack,
    PeerConnect(Option<Payload>),
    PeerAck(Option<Payload>),
    /// The peer's message with the next number plus this many, to this handle.
    User(u8, u8, Body),
    /// A user message with the right hash that announces another length.
    Length(u8, u64),
    /// The message the peer made as many messages ago, again.
    Again(u8, u16),
    /// The message with the lowest number left out so far.
    Fill(u8),
    /// All but those, last first.
    Backwards(u8, u16),
    Bad(u8, Bad),
    Write(u8, Payload),
    WriteTyped(u8, Val),
    FailingWrite(u8, u16),
    Refused(u8, u8),
    Clone(u8),
    Drop(u8),
    Drain(u8),
    Take(u8),
    Config(u8, Cfg),
    Many(u32, Vec<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    expect: bool,
    seed: u64,
    /// What of the negotiation comes first: nothing, all, all but the peer's ACK, its ACK only.
    ready: u8,
    /// Which type the typed read asks for; none: the binary read.
    typed: Option<u8>,
    ops: Vec<Op>,
}

enum L {
    Min(MinimalSecureLayer),
    Full(SecureLayer),
}

#[derive(Default)]
struct Out {
    panic: bool,
    err: bool,
    connect: bool,
    ack: bool,
    users: usize,
}

struct Handle {
    l: L,
    connect_sent: bool,
    ack_sent: bool,
    connect_got: bool,
    ack_got: bool,
    cloned: bool,
    got: BTreeSet<u64>,
    expected: u64,
    waited: usize,
    early_ack: usize,
    early: usize,
    early_n: usize,
    early_most: usize,
    /// What all that was ever held inflates to.
    early_out: usize,
}

impl Handle {
    fn new(l: L) -> Handle {
        Handle {
            l, connect_sent: false, ack_sent: false, connect_got: false, ack_got: false, cloned: false,
            got: BTreeSet::new(), expected: 0, waited: 0, early_ack: 0, early: 0, early_n: 0, early_most: 0, early_out: 0,
        }
    }
    fn negotiated(&self) -> bool {
        self.connect_sent && self.ack_sent && self.connect_got && self.ack_got
    }
    fn may_hold(&self) -> usize {
        PER_HANDLE + 2 * (self.early_ack + self.early) + 128 * (self.waited + self.early_most)
    }
    fn delivered(&mut self, n: u64) {
        if n >= self.expected {
            self.got.insert(n);
        }
        while self.got.remove(&self.expected) {
            self.expected += 1;
        }
        self.waited = self.waited.max(self.got.len() + 1);
    }
}

/// What the call says, with all it returned dropped.
fn summary<T>(f: impl FnOnce() -> pkstl::Result<T>, look: impl FnOnce(&T, &mut Out)) -> Out {
    let mut o = Out::default();
    match catch_unwind(AssertUnwindSafe(|| match f() {
        Ok(t) => {
            let mut o = Out::default();
            look(&t, &mut o);
            o
        }
        Err(e) => {
            drop(e);
            Out { err: true, ..Out::default() }
        }
    })) {
        Ok(x) => o = x,
        Err(_) => o.panic = true,
    }
    o
}

fn look_bin(v: &Vec<IncomingBinaryMessage>, o: &mut Out) {
    for m in v {
        match m {
            IncomingBinaryMessage::Connect { .. } => o.connect = true,
            IncomingBinaryMessage::Ack { .. } => o.ack = true,
            IncomingBinaryMessage::Message { .. } => o.users += 1,
        }
    }
}

fn look_typed<M: std::fmt::Debug + serde::de::DeserializeOwned>(v: &Vec<IncomingMessage<M>>, o: &mut Out) {
    for m in v {
        match m {
            IncomingMessage::Connect { .. } => o.connect = true,
            IncomingMessage::Ack { .. } => o.ack = true,
            IncomingMessage::Message { .. } => o.users += 1,
        }
    }
}

fn look_min(v: &Option<Message>, o: &mut Out) {
    match v {
        Some(Message::Connect { .. }) => o.connect = true,
        Some(Message::Ack { .. }) => o.ack = true,
        Some(Message::Message { .. }) => o.users += 1,
        None => {}
    }
}

fn read(l: &mut L, b: &[u8], typed: Option<u8>) -> Out {
    match (l, typed) {
        (L::Min(l), _) => summary(|| l.read(b), look_min),
        (L::Full(l), None) => summary(|| l.read_bin(b), look_bin),
        (L::Full(l), Some(0)) => summary(|| l.read::<Val>(b), look_typed),
        (L::Full(l), Some(1)) => summary(|| l.read::<Vec<u64>>(b), look_typed),
        (L::Full(l), Some(2)) => summary(|| l.read::<String>(b), look_typed),
        (L::Full(l), Some(_)) => summary(|| l.read::<Vec<u8>>(b), look_typed),
    }
}

/// A writer that keeps nothing.
struct Nowhere(Option<usize>);
impl std::io::Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match &mut self.0 {
            None => Ok(b.len()),
            Some(0) => Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)),
            Some(n) => {
                let k = b.len().min(*n);
                *n -= k;
                Ok(k)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A writer with room made beforehand.
struct Room(Vec<u8>);
impl std::io::Write for &mut Room {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.0.capacity() - self.0.len());
        self.0.extend_from_slice(&b[..k]);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Run<'a> {
    c: &'a Case,
    own: Identity,
    peer: Peer,
    hs: Vec<Handle>,
    number: u64,
    missing: BTreeSet<u64>,
    last: Vec<(u64, Body)>,
    calls: u64,
    stop: bool,
    most_held: isize,
    most_needed: isize,
}

/// What this inflates to, as far as it does.
fn inflated(d: &[u8]) -> usize {
    let mut dec = flate2::Decompress::new(false);
    let mut buf = vec![0u8; 64 << 10];
    loop {
        let (i, o) = (dec.total_in() as usize, dec.total_out());
        match dec.decompress(&d[i..], &mut buf, flate2::FlushDecompress::None) {
            Ok(flate2::Status::Ok) if dec.total_out() > o => {}
            _ => return dec.total_out() as usize,
        }
    }
}

impl Run<'_> {
    /// The data field, and what it inflates to.
    fn data(&self, b: &Body) -> (Vec<u8>, usize) {
        let zip = |d: Vec<u8>| if self.peer.zipped { wire::deflate(&d, 1) } else { d };
        let v = match b {
            Body::Plain(p) => zip(p.bytes()),
            Body::Raw(p) => p.bytes(),
            Body::Zeros(k, cut) => {
                let mut v = wire::deflate(&vec![0; *k as usize * 1024], 9);
                v.truncate(v.len().saturating_sub(*cut as usize));
                v
            }
            Body::Typed(v, f) => zip(values::encode(v, 2 + f % 3)),
            Body::Announces(f, n) => zip(match f % 4 {
                0 => {
                    // bincode: the length of a sequence, then a few items
                    let mut v = values::header(4).to_vec();
                    v.extend_from_slice(&n.to_le_bytes());
                    v.extend_from_slice(&[0; 24]);
                    v
                }
                k => {
                    // CBOR: an array, a byte string, a text
                    let mut v = values::header(3).to_vec();
                    v.push([0x9b, 0x5b, 0x7b][k as usize - 1]);
                    v.extend_from_slice(&n.to_be_bytes());
                    v.extend_from_slice(&[0; 24]);
                    v
                }
            }),
        };
        let out = if self.peer.zipped { inflated(&v) } else { 0 };
        (v, out)
    }

    fn held_ok(&mut self, op: &Op) -> Result<(), String> {
        let may: usize = self.hs.iter().map(|h| h.may_hold()).sum();
        let held = scan::held();
        self.most_held = self.most_held.max(held);
        if held > may as isize {
            return Err(format!(
                "after {} calls, the last {}: {} handles hold {} bytes, more than the {} for what they must keep",
                self.calls, brief(op), self.hs.len(), held, may
            ));
        }
        Ok(())
    }

    fn call<T>(&mut self, op: &Op, may: usize, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        let (r, need) = scan::counted(f);
        self.most_needed = self.most_needed.max(need - may as isize);
        if need > (PER_CALL + may) as isize {
            return Err(format!("{} needed {} bytes within the call, more than {}", brief(op), need, PER_CALL + may));
        }
        Ok(r)
    }

    fn read(&mut self, op: &Op, k: usize, m: &[u8], out: usize, what: u8, number: u64) -> Result<(), String> {
        let typed = self.c.typed;
        let h = &mut self.hs[k] as *mut Handle;
        let h = unsafe { &mut *h };
        // an early message is read again when it is due
        let may = 32 * (m.len() + h.early_ack + h.early) + 8 * (out + h.early_out) + h.may_hold();
        h.early_out += if self.c.ready == 1 && h.negotiated() { 0 } else { out };
        let o = self.call(op, may, || read(&mut h.l, m, typed))?;
        self.note(k, &o, m.len(), what, number);
        self.held_ok(op)
    }

    fn note(&mut self, k: usize, o: &Out, len: usize, what: u8, number: u64) {
        let h = &mut self.hs[k];
        if o.panic {
            self.stop = true;
            return;
        }
        if o.connect {
            h.connect_got = true;
        }
        if o.ack {
            h.ack_got = true;
        }
        if o.err {
            return;
        }
        match what {
            1 if !o.connect && !o.ack => h.early_ack = h.early_ack.max(len),
            2 if o.users == 0 && !h.negotiated() => {
                h.early += len;
                h.early_n += 1;
                h.early_most = h.early_most.max(h.early_n);
                // its number waits as well, once delivered
                h.waited = h.waited.max(h.early_n);
            }
            2 if o.users > 0 => h.delivered(number),
            _ => {}
        }
        if let L::Full(_) = h.l {
            if o.connect {
                h.early_ack = 0;
            }
            if h.negotiated() && o.ack {
                h.early = 0;
                h.early_n = 0;
            }
        }
    }

    fn step(&mut self, op: &Op, obs: &mut Obs) -> Result<(), String> {
        if self.stop {
            return Ok(());
        }
        if let Op::Many(n, ops) = op {
            for _ in 0..*n {
                for o in ops {
                    self.step(o, obs)?;
                }
            }
            return Ok(());
        }
        if self.hs.is_empty() {
            return Ok(());
        }
        let n = self.hs.len();
        let pick = |k: u8| k as usize % n;
        let pk = self.own.pk();
        match op {
            Op::Many(..) => unreachable!(),
            Op::Connect => {
                let mut room = Room(Vec::with_capacity(400));
                let h = &mut self.hs[0] as *mut Handle;
                let h = unsafe { &mut *h };
                let r = &mut room;
                let ok = self.call(op, 0, || match &mut h.l {
                    L::Min(l) => {
                        let o = summary(|| l.create_connect_message(&pk, Some(b"x")), |b, _| {
                            r.0.extend_from_slice(b);
                        });
                        !o.err && !o.panic
                    }
                    L::Full(l) => {
                        let mut w = BufWriter::with_capacity(16, r);
                        let o = summary(|| l.write_connect_msg_bin(Some(b"x"), &mut w), |_, _| {});
                        let _ = std::io::Write::flush(&mut w);
                        !o.err && !o.panic
                    }
                })?;
                if ok {
                    h.connect_sent = true;
                    if let Some(e) = room.0.get(18..50) {
                        self.peer.see_epk(e.try_into().unwrap());
                    }
                }
            }
            Op::Ack => {
                let h = &mut self.hs[0] as *mut Handle;
                let h = unsafe { &mut *h };
                let ok = self.call(op, 0, || match &mut h.l {
                    L::Min(l) => {
                        let o = summary(|| l.create_ack_message(None), |_, _| {});
                        !o.err && !o.panic
                    }
                    L::Full(l) => {
                        let mut w = BufWriter::with_capacity(16, Nowhere(None));
                        let o = summary(|| l.write_ack_msg_bin(None, &mut w), |_, _| {});
                        !o.err && !o.panic
                    }
                })?;
                h.ack_sent |= ok;
            }
            Op::PeerConnect(p) => {
                let m = self.peer.connect(p.as_ref().map(|p| p.bytes()).as_deref());
                let out = p.as_ref().map_or(0, |p| p.len);
                self.read(op, 0, &m, out, 0, 0)?;
            }
            Op::PeerAck(p) => {
                if self.peer.remote_epk.is_some() {
                    let m = self.peer.ack(p.as_ref().map(|p| p.bytes()).as_deref());
                    let out = p.as_ref().map_or(0, |p| p.len);
                    self.read(op, 0, &m, out, 1, 0)?;
                }
            }
            Op::User(k, gap, body) => {
                if self.peer.key.is_some() {
                    let number = self.number + *gap as u64;
                    self.missing.extend(self.number..number);
                    self.number = number + 1;
                    self.last.push((number, body.clone()));
                    if self.last.len() > 64 {
                        self.last.remove(0);
                    }
                    self.user(op, pick(*k), number, body)?;
                }
            }
            Op::Length(k, len) => {
                if let Some(key) = &self.peer.key {
                    let mut b = wire::user_body(self.number, b"short");
                    b[8..16].copy_from_slice(&len.to_be_bytes());
                    let m = key.seal(&wire::hashed(b));
                    self.read(op, pick(*k), &m, 0, 2, self.number)?;
                }
            }
            Op::Again(k, back) => {
                let n = self.last.len();
                if n > 0 {
                    let (number, body) = self.last[n - 1 - *back as usize % n].clone();
                    self.user(op, pick(*k), number, &body)?;
                }
            }
            Op::Fill(k) => {
                if let Some(number) = self.missing.pop_first() {
                    self.user(op, pick(*k), number, &Body::Plain(Payload::new(9, 3, number)))?;
                }
            }
            Op::Backwards(k, n) => {
                for i in (0..*n as u64).rev() {
                    self.user(op, pick(*k), self.number + i, &Body::Plain(Payload::new(9, 3, i)))?;
                }
                self.number += *n as u64;
            }
            Op::Bad(k, b) => {
                let k = pick(*k);
                let out = |p: &Payload| if self.peer.zipped { p.len } else { 0 };
                let (m, out, what) = match b {
                    Bad::Connect(p) => {
                        let mut m = self.peer.connect(Some(&p.bytes()));
                        let i = m.len() - 1;
                        m[i] ^= 1;
                        (m, out(p), 0)
                    }
                    Bad::Ack(p, sig) => {
                        let r = self.peer.remote_epk.unwrap_or([5; 32]);
                        let r = if *sig { r } else { [9; 32] };
                        let mut m = wire::signed(wire::ack_body(&r, &self.peer.pack(Some(&p.bytes()))), &self.peer.id);
                        if *sig {
                            let i = m.len() - 1;
                            m[i] ^= 1;
                        }
                        (m, out(p), 1)
                    }
                    Bad::Noise(p) => (p.bytes(), 0, 0),
                    Bad::Cut(p, n) => {
                        let Some(key) = &self.peer.key else { return Ok(()) };
                        let mut m = wire::user_msg(key, self.number, &self.peer.pack(Some(&p.bytes())));
                        m.truncate(m.len() - 1 - *n as usize % m.len().max(1).min(m.len() - 1).max(1));
                        (m, 0, 2)
                    }
                    Bad::Clear(t, len) => {
                        let mut m = match t % 3 {
                            0 => wire::user_body(0, b"abc"),
                            1 => wire::connect_body(&self.peer.epk, &self.peer.id.pk(), b"abc"),
                            _ => wire::ack_body(&self.peer.remote_epk.unwrap_or([5; 32]), b"abc"),
                        };
                        m[8..16].copy_from_slice(&len.to_be_bytes());
                        (wire::signed(m, &self.peer.id), 0, if t % 3 == 2 { 1 } else { 0 })
                    }
                };
                self.read(op, k, &m, out, what, 0)?;
            }
            Op::Write(k, p) => {
                let b = p.bytes();
                let h = &mut self.hs[pick(*k)] as *mut Handle;
                let h = unsafe { &mut *h };
                let o = self.call(op, 32 * b.len(), || {
                    let mut w = BufWriter::with_capacity(64, Nowhere(None));
                    match &mut h.l {
                        L::Min(l) => summary(|| l.write_message(&b, &mut w), |_, _| {}),
                        L::Full(l) => summary(|| l.write_bin(&b, &mut w), |_, _| {}),
                    }
                })?;
                self.stop |= o.panic;
            }
            Op::FailingWrite(k, at) => {
                let h = &mut self.hs[pick(*k)] as *mut Handle;
                let h = unsafe { &mut *h };
                let o = self.call(op, 32 * 300, || {
                    let mut w = BufWriter::with_capacity(16, Nowhere(Some(*at as usize % 400)));
                    let r = match &mut h.l {
                        L::Min(l) => summary(|| l.write_message(&[7; 300], &mut w), |_, _| {}),
                        L::Full(l) => summary(|| l.write_bin(&[7; 300], &mut w), |_, _| {}),
                    };
                    let _ = w.into_parts();
                    r
                })?;
                self.stop |= o.panic;
            }
            Op::WriteTyped(k, v) => {
                let len = serde_json::to_vec(v).map_or(0, |v| v.len());
                let h = &mut self.hs[pick(*k)] as *mut Handle;
                let h = unsafe { &mut *h };
                let o = self.call(op, 32 * len, || {
                    let mut w = BufWriter::with_capacity(64, Nowhere(None));
                    match &mut h.l {
                        L::Min(_) => Out::default(),
                        L::Full(l) => summary(|| l.write(v, &mut w), |_, _| {}),
                    }
                })?;
                self.stop |= o.panic;
            }
            Op::Refused(k, what) => {
                let h = &mut self.hs[pick(*k)] as *mut Handle;
                let h = unsafe { &mut *h };
                let (w, e) = (*what % 3, h.connect_sent && h.ack_sent);
                if e {
                    let o = self.call(op, 0, || match &mut h.l {
                        L::Min(l) => match w {
                            0 => summary(|| l.create_connect_message(&pk, Some(&[1; 100])), |_, _| {}),
                            _ => summary(|| l.create_ack_message(Some(&[1; 100])), |_, _| {}),
                        },
                        L::Full(l) => {
                            let mut b = BufWriter::with_capacity(16, Nowhere(None));
                            match w {
                                0 => summary(|| l.write_connect_msg_bin(Some(&[1; 100]), &mut b), |_, _| {}),
                                _ => summary(|| l.write_ack_msg_bin(Some(&[1; 100]), &mut b), |_, _| {}),
                            }
                        }
                    })?;
                    self.stop |= o.panic;
                }
            }
            Op::Clone(k) => {
                if n < 5 {
                    let h = &mut self.hs[pick(*k)] as *mut Handle;
                    let h = unsafe { &mut *h };
                    let mut got = None;
                    let may = h.may_hold();
                    let g = &mut got;
                    self.call(op, may, || {
                        *g = catch_unwind(AssertUnwindSafe(|| match &mut h.l {
                            L::Min(l) => l.try_clone().ok().map(L::Min),
                            L::Full(l) => l.try_clone().ok().map(L::Full),
                        }))
                        .ok()
                        .flatten();
                    })?;
                    if let Some(l) = got {
                        obs.label("clone");
                        let mut c = Handle::new(l);
                        c.cloned = true;
                        c.connect_sent = true;
                        c.ack_sent = true;
                        c.connect_got = true;
                        c.ack_got = true;
                        c.got = h.got.clone();
                        c.expected = h.expected;
                        c.waited = h.waited;
                        c.early = h.early;
                        c.early_n = h.early_n;
                        c.early_most = h.early_most;
                        c.early_ack = h.early_ack;
                        c.early_out = h.early_out;
                        self.hs.push(c);
                    }
                }
            }
            Op::Drop(k) => {
                if n > 1 {
                    let h = self.hs.remove(pick(*k));
                    self.call(op, 0, move || drop(h.l))?;
                }
            }
            Op::Drain(k) | Op::Take(k) => {
                let k = pick(*k);
                let h = &mut self.hs[k] as *mut Handle;
                let h = unsafe { &mut *h };
                let drain = matches!(op, Op::Drain(_));
                let may = 32 * (h.early + h.early_ack) + h.may_hold();
                let o = self.call(op, may, || match &mut h.l {
                    L::Min(l) if drain => summary(|| l.drain_tmp_stack_user_msgs(), |v, o| o.users = v.len()),
                    L::Min(l) => summary(|| l.take_ack_msg_recv_too_early(), look_min),
                    L::Full(_) => Out::default(),
                })?;
                self.stop |= o.panic;
                if let L::Min(_) = h.l {
                    h.ack_got |= o.ack;
                    if drain && h.negotiated() {
                        h.early = 0;
                        h.early_n = 0;
                        obs.label("drained");
                    }
                    // a clone does not know the peer's key
                    if !drain && h.connect_got && !h.cloned {
                        h.early_ack = 0;
                    }
                }
            }
            Op::Config(k, cfg) => {
                let h = &mut self.hs[pick(*k)] as *mut Handle;
                let h = unsafe { &mut *h };
                self.call(op, 0, || match &mut h.l {
                    L::Min(l) => l.change_config(cfg.get()).is_ok(),
                    L::Full(l) => l.change_config(cfg.get()).is_ok(),
                })?;
            }
        }
        if self.stop {
            return Ok(());
        }
        if self.hs.first().is_some_and(|h| h.negotiated()) {
            obs.nontrivial();
        }
        self.held_ok(op)
    }

    fn user(&mut self, op: &Op, k: usize, number: u64, body: &Body) -> Result<(), String> {
        let (d, out) = self.data(body);
        let Some(key) = &self.peer.key else { return Ok(()) };
        let m = wire::user_msg(key, number, &d);
        self.read(op, k, &m, out, 2, number)
    }
}

fn brief(op: &Op) -> String {
    format!("{:?}", op).chars().take(120).collect()
}

/// What was held at the end.
fn once(c: &Case, obs: &mut Obs) -> Result<isize, String> {
    entropy::set(c.seed);
    let peer = Peer::new(c.seed ^ 0x21, c.mode == Mode::Complete);
    let seed = own_seed(c.seed, 1);
    let expected = c.expect.then(|| peer.id.pk());
    scan::count_from_zero();
    let (l, _) = scan::counted(|| {
        let expected = expected.map(|e| e.to_vec());
        catch_unwind(AssertUnwindSafe(|| match c.mode {
            Mode::Minimal => MinimalSecureLayer::create(c.cfg.get(), expected).ok().map(L::Min),
            Mode::Complete => SecureLayer::create(c.cfg.get(), Some(Seed32::new(seed)), expected).ok().map(L::Full),
        }))
        .ok()
        .flatten()
    });
    let Some(l) = l else { return Ok(0) };
    let mut r = Run {
        c, own: Identity::new(seed), peer, hs: vec![Handle::new(l)], number: 0, missing: BTreeSet::new(),
        last: vec![], calls: 0, stop: false, most_held: 0, most_needed: 0,
    };
    let first = match c.ready {
        0 => vec![],
        1 => vec![Op::Connect, Op::PeerConnect(None), Op::Ack, Op::PeerAck(None)],
        2 => vec![Op::Connect, Op::PeerConnect(None), Op::Ack],
        _ => vec![Op::Connect, Op::PeerAck(None)],
    };
    for op in &first {
        r.step(op, obs)?;
    }
    for op in &c.ops {
        r.step(op, obs)?;
    }
    obs.extra += r.calls;
    if r.stop {
        // a call panicked, which C07 judges
        obs.label("panic");
        return Ok(0);
    }
    if std::env::var("C21_SHOW").is_ok() {
        eprintln!("held {} needed {} over", r.most_held, r.most_needed);
    }
    if r.hs.iter().any(|h| h.waited > 1) {
        obs.label("numbers waited");
    }
    if r.hs.iter().any(|h| h.early_most > 0) {
        obs.label("held early");
    }
    let hs = std::mem::take(&mut r.hs);
    for h in hs {
        scan::counted(move || drop(h.l));
    }
    Ok(scan::held())
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let left = once(c, obs)?;
    if left != 0 {
        // once more: what a thread allocates at its first use is not a leak
        let other = Case { seed: c.seed ^ 0x77, ..c.clone() };
        let left = once(&other, &mut Obs::default())?;
        if left != 0 {
            return Err(format!("all handles dropped: {} bytes are still held", left));
        }
    }
    Ok(())
}

/// Many sessions one after the other, with identities and keys of their own: the process does not
/// keep more and more.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sessions {
    n: u32,
    case: Case,
}

fn sessions(s: &Sessions, obs: &mut Obs) -> Result<(), String> {
    let mut c = s.case.clone();
    let mut kept = 0;
    for k in 0..s.n {
        c.seed = splitmix(&mut c.seed);
        let left = once(&c, obs)?;
        // what is set up once, or kept for the next ones within some limit
        if k >= 64 {
            kept += left;
        }
        if kept > 16 << 10 {
            return Err(format!("{} sessions began and ended, and after that {} bytes more were held than after the first 64", k + 1, kept));
        }
    }
    if s.n > 64 && obs.extra > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn body() -> impl Strategy<Value = Body> {
    prop_oneof![
        5 => small_payload().prop_map(Body::Plain),
        1 => any_payload(300_000).prop_map(Body::Plain),
        1 => small_payload().prop_map(Body::Raw),
        1 => (1u16..3000, prop_oneof![Just(0u8), 0u8..9]).prop_map(|(k, c)| Body::Zeros(k, c)),
        1 => (values::val(), any::<u8>()).prop_map(|(v, f)| Body::Typed(v, f)),
        1 => (any::<u8>(), lengths()).prop_map(|(f, n)| Body::Announces(f, n)),
    ]
}

fn lengths() -> impl Strategy<Value = u64> {
    prop_oneof![
        (20u32..64, 0u64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d).wrapping_sub(1)),
        0u64..400,
        any::<u64>(),
        Just(u64::MAX),
    ]
}

fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![
        4 => any_payload(20_000).prop_map(Bad::Connect),
        4 => (any_payload(20_000), any::<bool>()).prop_map(|(p, s)| Bad::Ack(p, s)),
        1 => any_payload(20_000).prop_map(Bad::Noise),
        1 => (small_payload(), any::<u16>()).prop_map(|(p, n)| Bad::Cut(p, n)),
        1 => (any::<u8>(), lengths()).prop_map(|(t, n)| Bad::Clear(t, n)),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    let k = || 0u8..5;
    prop_oneof![
        2 => Just(Op::Connect),
        2 => Just(Op::Ack),
        2 => proptest::option::of(any_payload(20_000)).prop_map(Op::PeerConnect),
        2 => proptest::option::of(any_payload(20_000)).prop_map(Op::PeerAck),
        10 => (k(), prop_oneof![4 => Just(0u8), 1 => 0u8..200], body()).prop_map(|(k, g, b)| Op::User(k, g, b)),
        4 => (k(), any::<u16>()).prop_map(|(k, b)| Op::Again(k, b)),
        3 => k().prop_map(Op::Fill),
        1 => (k(), 1u16..60).prop_map(|(k, n)| Op::Backwards(k, n)),
        1 => (k(), lengths()).prop_map(|(k, n)| Op::Length(k, n)),
        3 => (k(), bad()).prop_map(|(k, b)| Op::Bad(k, b)),
        3 => (k(), any_payload(100_000)).prop_map(|(k, p)| Op::Write(k, p)),
        1 => (k(), values::val()).prop_map(|(k, v)| Op::WriteTyped(k, v)),
        1 => (k(), any::<u16>()).prop_map(|(k, a)| Op::FailingWrite(k, a)),
        2 => (k(), any::<u8>()).prop_map(|(k, w)| Op::Refused(k, w)),
        2 => k().prop_map(Op::Clone),
        2 => k().prop_map(Op::Drop),
        2 => k().prop_map(Op::Drain),
        2 => k().prop_map(Op::Take),
        1 => (k(), any_cfg()).prop_map(|(k, c)| Op::Config(k, c)),
    ]
}

fn traffic(n: u32) -> Vec<Case> {
    let p = |len| Payload::new(len, 1, 5);
    let user = |len| Op::User(0, 0, Body::Plain(p(len)));
    let mut kinds: Vec<(u8, Vec<Op>)> = vec![
        (1, vec![Op::Many(n, vec![user(20)])]),
        (1, vec![Op::Many(n / 10, vec![user(3000)])]),
        (1, vec![user(20), Op::Many(n, vec![Op::Again(0, 0)])]),
        (1, vec![Op::Many(n / 2, vec![Op::User(0, 1, Body::Plain(p(20))), Op::Fill(0)])]),
        (1, vec![Op::Many(5, vec![Op::Backwards(0, 9000)])]),
        (1, vec![Op::Many(9000, vec![Op::User(0, 1, Body::Plain(p(20)))]), Op::Many(9000, vec![Op::Fill(0)])]),
        (1, vec![Op::Many(n, vec![Op::Write(0, p(20))])]),
        (1, vec![Op::Many(n / 2, vec![Op::Refused(0, 0), Op::Refused(0, 1)])]),
        (1, vec![user(5), Op::Many(n / 10, vec![Op::Clone(0), Op::User(1, 0, Body::Plain(p(9))), Op::Drop(1)])]),
        (1, vec![user(5), Op::Many(n / 10, vec![Op::Clone(0), Op::User(1, 0, Body::Plain(p(9))), Op::Drop(0)])]),
        (1, vec![Op::Many(n / 4, vec![Op::Bad(0, Bad::Connect(p(60))), Op::Bad(0, Bad::Ack(p(60), false)), Op::Bad(0, Bad::Ack(p(60), true)), user(6)])]),
        (1, vec![Op::Bad(0, Bad::Noise(p(60))), Op::Many(n, vec![user(20)])]),
        (1, vec![Op::FailingWrite(0, 40), Op::Many(n / 2, vec![user(20), Op::Write(0, p(30))])]),
        (1, vec![Op::Many(n / 5, vec![Op::Config(0, Cfg { level: 6, ..Cfg::default() }), Op::WriteTyped(0, Val::Text("x".repeat(100))), user(9)])]),
        (0, vec![Op::Many(n / 3, vec![Op::Bad(0, Bad::Connect(p(300))), Op::Bad(0, Bad::Ack(p(60), false))])]),
        (0, vec![Op::Connect, Op::Many(n / 3, vec![Op::Bad(0, Bad::Connect(p(300))), Op::Take(0), Op::Drain(0)])]),
        // held: as much as arrived, and nothing once delivered
        (0, vec![Op::Connect, Op::PeerConnect(Some(p(40_000))), Op::Ack, Op::Many(1500, vec![user(300)]), Op::Many(20, vec![Op::Again(0, 3)]),
            Op::PeerAck(Some(p(30_000))), Op::Drain(0), Op::Many(n / 10, vec![user(300)])]),
        (0, vec![Op::Connect, Op::PeerConnect(None), Op::Ack, Op::Many(100, vec![user(3000)]), Op::Many(300, vec![Op::Drain(0), Op::Take(0)]),
            Op::PeerAck(None), Op::Drain(0), Op::Many(n / 10, vec![user(300), Op::Drain(0)])]),
        // an ACK too early
        (0, vec![Op::Connect, Op::PeerAck(Some(p(50_000))), Op::Many(300, vec![Op::Take(0), Op::Bad(0, Bad::Connect(p(30)))]), Op::PeerConnect(None), Op::Take(0),
            Op::Ack, Op::Many(n / 10, vec![user(20)])]),
        // early ones that nobody ever reads
        (0, vec![Op::Connect, Op::PeerConnect(None), Op::Ack, Op::Many(500, vec![user(500)])]),
    ];
    let mut out = vec![];
    for (ready, ops) in kinds.drain(..) {
        for mode in [Mode::Minimal, Mode::Complete] {
            out.push(Case { mode, cfg: Cfg { format: 3, ..Cfg::default() }, expect: false, seed: 7, ready, typed: None, ops: ops.clone() });
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.each("traffic", traffic(ctx.pick(20_000, 400_000)), run_case);
    let mut cases = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for expect in [false, true] {
            for ready in 0..4 {
                for kind in 0..4 {
                    let p = Payload::new(20, 1, 5);
                    let u = Op::User(0, 0, Body::Plain(p.clone()));
                    let ops = match kind {
                        0 => vec![],
                        1 => vec![u.clone(), Op::Write(0, p.clone()), Op::Again(0, 0), Op::Refused(0, 0)],
                        2 => vec![Op::Clone(0), u.clone(), Op::WriteTyped(1, Val::Text("x".into())), Op::Drop(0)],
                        _ => vec![Op::Bad(0, Bad::Connect(p.clone())), Op::Bad(0, Bad::Ack(p, false)), u],
                    };
                    let case = Case { mode, cfg: Cfg { format: 3, ..Cfg::default() }, expect, seed: kind, ready, typed: None, ops };
                    cases.push(Sessions { n: ctx.pick(2500, 40_000), case });
                }
            }
        }
    }
    ctx.each("sessions", cases, sessions);
    let mut cases = vec![];
    for shift in 0..64u32 {
        for d in [-1i64, 0, 1] {
            let n = (1u64 << shift).wrapping_add(d as u64);
            for mode in [Mode::Minimal, Mode::Complete] {
                let mut ops: Vec<Op> = vec![];
                for ready in [0, 1, 2] {
                    ops.clear();
                    ops.push(Op::Length(0, n));
                    cases.push(Case { mode, cfg: Cfg::default(), expect: false, seed: 8, ready, typed: None, ops: ops.clone() });
                    for t in 0..3 {
                        let ops = vec![Op::Bad(0, Bad::Clear(t, n))];
                        cases.push(Case { mode, cfg: Cfg::default(), expect: t == 2, seed: 8, ready, typed: None, ops });
                    }
                }
            }
            for f in 0..4u8 {
                for t in 0..4u8 {
                    let ops = vec![Op::User(0, 0, Body::Announces(f, n)), Op::User(0, 0, Body::Plain(Payload::new(9, 1, 1)))];
                    cases.push(Case { mode: Mode::Complete, cfg: Cfg::default(), expect: false, seed: 8, ready: 1, typed: Some(t), ops });
                }
            }
        }
    }
    ctx.each("announced-lengths", cases, run_case);
    ctx.prop(
        "histories",
        ctx.pick(40_000, 1_200_000),
        || {
            (
                any_mode(),
                any_cfg(),
                any::<bool>(),
                any::<u64>(),
                prop_oneof![4 => Just(1u8), 1 => Just(0u8), 2 => Just(2u8), 1 => Just(3u8)],
                prop_oneof![2 => Just(None), 1 => (0u8..4).prop_map(Some)],
                proptest::collection::vec(op(), 1..25),
            )
                .prop_map(|(mode, cfg, expect, seed, ready, typed, ops)| Case { mode, cfg, expect, seed, ready, typed, ops })
        },
        run_case,
    );
    ctx.finish(
        RULE,
        "exploration",
        &[
            "memory is what the program's allocator hands out; the stack is not measured",
            "the constants (8 KiB, 3 MiB, 32, 8, 128) leave at least threefold room over what the unchanged tree needs",
        ],
    )
}
