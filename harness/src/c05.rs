//! C05: only the peer's unaltered user messages are delivered.

use crate::dict;
use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::refcrypto::{pbkdf2_sha384_3, sha256, SessionKey};
use crate::setup::own_seed;
use crate::sut::{seen, Got, Layer, Mode};
use crate::wire;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "two layers of the system under test negotiate; one writes messages, and to the other arrive these, altered \
 (every bit, every length, insertions, removals, splices, swaps, known-plaintext substitutions), in clear, from other \
 sessions of the same identities, under keys made from public values, invented, or its own. The oracle compares bytes: \
 a user message may be delivered only by the arrival of exactly what the peer wrote (while messages are held: only if \
 that arrived). Non-trivial: bytes arrived, in a state in which user messages are accepted or held, that the peer did not \
 write in this session.";

/// The receiver's state.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum At {
    Done,
    Cloned,
    /// Its peer's ACK has not arrived: user messages are held.
    Held,
}

struct World {
    mode: Mode,
    a: Layer,
    b: Layer,
    ack: Vec<u8>,
    /// Written by A in this session, with what must be delivered.
    written: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    /// The same with the bytes given.
    plain: Vec<Vec<u8>>,
    /// Written by B.
    own: Vec<Vec<u8>>,
    /// Written in another session of the same identities, in both directions.
    other: Vec<Vec<u8>>,
    nego: [Vec<u8>; 3],
    epks: [[u8; 32]; 2],
}

/// The messages carry their number, so that no two deliveries look alike.
fn payload(p: &Payload, n: usize) -> Vec<u8> {
    let mut v = format!("#{}#", n).into_bytes();
    v.extend(p.bytes());
    v
}

fn world(mode: Mode, cfg: &Cfg, at: At, seed: u64, sent: &[Payload], back: &[Payload]) -> Result<World, String> {
    let s = |e: crate::sut::E| format!("negotiation: {}", e);
    let mut other = vec![];
    for session in 0..2u64 {
        entropy::set(seed ^ (session + 1).wrapping_mul(0x5E55_1011));
        let keys = crate::keypairs::now_and_then(seed).filter(|_| session == 1);
        if let Some(k) = &keys {
            entropy::push_fixed(&k.0);
        }
        let mut a = Layer::create(mode, cfg.get(), own_seed(seed, 1), None).map_err(s)?;
        if let Some(k) = &keys {
            entropy::push_fixed(&k.1);
        }
        let mut b = Layer::create(mode, cfg.get(), own_seed(seed, 2), None).map_err(s)?;
        let m0 = a.connect(None).map_err(s)?;
        let m2 = b.connect(None).map_err(s)?;
        b.read(&m0).map_err(s)?;
        a.read(&m2).map_err(s)?;
        let m1 = a.ack(None).map_err(s)?;
        let m3 = b.ack(None).map_err(s)?;
        a.read(&m3).map_err(s)?;
        if session == 0 {
            b.read(&m1).map_err(s)?;
            for (i, p) in sent.iter().chain(back).take(3).enumerate() {
                other.push(a.write(&payload(p, i)).map_err(s)?);
                other.push(b.write(&payload(p, i)).map_err(s)?);
            }
            continue;
        }
        let mut written = vec![];
        let mut plain = vec![];
        for (i, p) in sent.iter().enumerate() {
            let d = payload(p, i);
            written.push((a.write(&d).map_err(s)?, seen(mode, Some(&d))));
            plain.push(d);
        }
        let mut own = vec![];
        if at != At::Held {
            b.read(&m1).map_err(s)?;
            for (i, p) in back.iter().enumerate() {
                own.push(b.write(&payload(p, 1000 + i)).map_err(s)?);
            }
            if at == At::Cloned {
                b = b.try_clone().map_err(s)?;
            }
        }
        let epk = |m: &Vec<u8>| -> Result<[u8; 32], String> {
            Ok(m.get(18..50).ok_or("negotiation: short CONNECT")?.try_into().unwrap())
        };
        let epks = [epk(&m0)?, epk(&m2)?];
        return Ok(World {
            mode,
            a,
            b,
            ack: m1,
            written,
            plain,
            own,
            other,
            nego: [m0, m2, m3],
            epks,
        });
    }
    unreachable!()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Sent(u8),
    Own(u8),
    Other(u8),
    Nego(u8),
    /// A user message in clear: number, and whether it ends with its hash.
    Clear(u8, Option<Payload>, bool),
    /// Made by the reference implementation under a key anyone can compute.
    Guess(u8, u8, Payload),
    Random(Payload),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Flip(u32, u8),
    FlipTwo(u32, u32, u8),
    /// XOR into the hash (at the end of the plain text) and one byte before.
    XorRange(u32, u16, u8),
    Truncate(u32),
    Behead(u32),
    Extend(Vec<u8>),
    Prepend(Vec<u8>),
    Insert(u32, u8),
    Remove(u32),
    /// The beginning of this one and the end of another.
    Splice(u32, Src),
    /// Everything but the tag of this one, the tag of another.
    TagOf(Src),
    Concat(Src),
    /// The keystream is known where the plain text is: replace the payload, and recompute the
    /// hash, so that all but the tag fits. In minimal mode the plain text is exactly known.
    Rewrite(u64, u8),
    /// Number replaced, hash recomputed.
    Renumber(u64),
    ZeroTag,
    /// One of these bytes or more at the end (or the beginning) up to a multiple of this length.
    Pad { front: bool, align: u32, byte: u8 },
    /// In the manner of some transport.
    Wrap(u8),
    Rotate(u32),
    Repeat,
    Reverse,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arrival {
    src: Src,
    change: Option<Change>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    at: At,
    seed: u64,
    sent: Vec<Payload>,
    back: Vec<Payload>,
    arrivals: Vec<Arrival>,
    /// While held: after how many arrivals the ACK comes.
    ack_after: u8,
}

/// Keys made from what everyone sees.
fn guess(w: &World, k: u8) -> SessionKey {
    let pick = |i: u8| -> Vec<u8> {
        match i % 8 {
            0 => vec![0; 32],
            1 => w.epks[0].to_vec(),
            2 => w.epks[1].to_vec(),
            3 => sha256(&w.epks[0]).to_vec(),
            4 => sha256(&w.epks[1]).to_vec(),
            5 => vec![],
            6 => w.epks[0].iter().zip(&w.epks[1]).map(|(a, b)| a ^ b).collect(),
            _ => vec![0xFF; 32],
        }
    };
    match k / 64 {
        0 | 1 => SessionKey(pbkdf2_sha384_3(&pick(k), &pick(k / 8))),
        2 => {
            let mut v = pick(k);
            v.extend(pick(k / 8));
            v.resize(48, 0);
            SessionKey(v.try_into().unwrap())
        }
        _ => SessionKey([k & 1; 48]),
    }
}

fn source(w: &World, s: &Src) -> Option<Vec<u8>> {
    let pick = |v: &Vec<Vec<u8>>, i: u8| (!v.is_empty()).then(|| v[i as usize % v.len()].clone());
    let pack = |d: &[u8]| match w.mode {
        Mode::Minimal => d.to_vec(),
        Mode::Complete => wire::deflate(d, 1),
    };
    match s {
        Src::Sent(i) => (!w.written.is_empty()).then(|| w.written[*i as usize % w.written.len()].0.clone()),
        Src::Own(i) => pick(&w.own, *i),
        Src::Other(i) => pick(&w.other, *i),
        Src::Nego(i) => Some(w.nego[*i as usize % 3].clone()),
        Src::Clear(n, p, hash) => {
            let d = p.as_ref().map_or(vec![], |p| pack(&p.bytes()));
            let b = wire::user_body(*n as u64, &d);
            Some(if *hash { wire::hashed(b) } else { b })
        }
        Src::Guess(k, n, p) => Some(wire::user_msg(&guess(w, *k), *n as u64, &pack(&p.bytes()))),
        Src::Random(p) => Some(p.bytes()),
    }
}

/// The plain text of a message of A in minimal mode.
fn plain_of(w: &World, m: &[u8]) -> Option<Vec<u8>> {
    let i = w.written.iter().position(|x| x.0 == m)?;
    (w.mode == Mode::Minimal).then(|| wire::hashed(wire::user_body(i as u64, &w.plain[i])))
}

const WRAPS: u8 = 26;

/// The bytes as some transport would carry them: unwrapping is not the business of the layer.
fn wrap(m: &[u8], how: u8) -> Vec<u8> {
    use flate2::Compression;
    use std::io::Write;
    let n = m.len();
    let front = |p: &[u8]| [p, m].concat();
    let back = |p: &[u8]| [m, p].concat();
    let hex = |up: bool| m.iter().map(|b| if up { format!("{:02X}", b) } else { format!("{:02x}", b) }).collect::<String>();
    match how % WRAPS {
        0 => front(&(n as u16).to_be_bytes()),
        1 => front(&(n as u16).to_le_bytes()),
        2 => front(&(n as u32).to_be_bytes()),
        3 => front(&(n as u32).to_le_bytes()),
        4 => front(&(n as u64).to_be_bytes()),
        5 => front(&(n as u64).to_le_bytes()),
        6 => hex(false).into_bytes(),
        7 => hex(true).into_bytes(),
        8 => {
            const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let mut o = vec![];
            for c in m.chunks(3) {
                let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for i in 0..4 {
                    o.push(if i <= c.len() { A[(v >> (18 - 6 * i)) as usize & 63] } else { b'=' });
                }
            }
            o
        }
        9 => back(b"\n"),
        10 => back(b"\r\n"),
        11 => back(b"\0"),
        12 => front(b"\n"),
        13 => front(b" "),
        14 => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], Compression::fast());
            e.write_all(m).unwrap();
            e.finish().unwrap()
        }
        15 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], Compression::fast());
            e.write_all(m).unwrap();
            e.finish().unwrap()
        }
        16 => {
            let mut e = flate2::write::GzEncoder::new(vec![], Compression::fast());
            e.write_all(m).unwrap();
            e.finish().unwrap()
        }
        17 => {
            let mut o = wire::MAGIC.to_vec();
            o.extend_from_slice(&[0, 0, 0, 1]);
            o.extend_from_slice(&(n as u64).to_be_bytes());
            o.extend_from_slice(m);
            o
        }
        18 => front(&wire::MAGIC),
        19 => String::from_utf8_lossy(m).into_owned().into_bytes(),
        20 => m.iter().map(|b| *b as char).collect::<String>().into_bytes(),
        21 => m.iter().flat_map(|b| [*b, 0]).collect(),
        22 => m.iter().map(|b| b.reverse_bits()).collect(),
        23 => m.iter().map(|b| !b).collect(),
        24 => back(&sha256(m)),
        _ => {
            // tag first
            let k = n.saturating_sub(16);
            [&m[k..], &m[..k]].concat()
        }
    }
}

fn apply(w: &World, m: Vec<u8>, c: &Change) -> Option<Vec<u8>> {
    let mut m = m;
    let n = m.len() as u32;
    if n == 0 {
        return None;
    }
    let at = |i: u32| (i % n) as usize;
    match c {
        Change::Flip(i, k) => m[at(*i)] ^= 1 << (k % 8),
        Change::FlipTwo(i, j, k) => {
            m[at(*i)] ^= 1 << (k % 8);
            m[at(*j)] ^= 1 << (k / 8 % 8);
        }
        Change::XorRange(i, len, v) => {
            let a = at(*i);
            let e = (a + *len as usize).min(m.len());
            for x in &mut m[a..e] {
                *x ^= v;
            }
        }
        Change::Truncate(k) => m.truncate(at(*k)),
        Change::Behead(k) => {
            m.drain(..at(*k));
        }
        Change::Extend(v) => m.extend_from_slice(v),
        Change::Prepend(v) => {
            m.splice(0..0, v.iter().copied());
        }
        Change::Insert(i, v) => m.insert(at(*i), *v),
        Change::Remove(i) => {
            m.remove(at(*i));
        }
        Change::Splice(i, s) => {
            let o = source(w, s)?;
            let k = at(*i);
            m.truncate(k);
            m.extend_from_slice(o.get(k.min(o.len())..)?);
        }
        Change::TagOf(s) => {
            let o = source(w, s)?;
            m.truncate(m.len().saturating_sub(16));
            m.extend_from_slice(&o[o.len().saturating_sub(16)..]);
        }
        Change::Concat(s) => m.extend(source(w, s)?),
        Change::Rewrite(seed, how) => {
            let p = plain_of(w, &m)?;
            let mut q = p.clone();
            let end = q.len() - 32;
            let mut s = *seed;
            if end > 26 {
                let k = 26 + (splitmix(&mut s) as usize) % (end - 26);
                q[k] ^= 1 + (splitmix(&mut s) % 255) as u8;
            } else {
                return None;
            }
            if how % 2 == 0 {
                let h = sha256(&q[..end]);
                q[end..].copy_from_slice(&h);
            }
            for i in 0..q.len() {
                m[i] ^= p[i] ^ q[i];
            }
        }
        Change::Renumber(number) => {
            let p = plain_of(w, &m)?;
            let mut q = p.clone();
            let end = q.len() - 32;
            q[18..26].copy_from_slice(&number.to_be_bytes());
            let h = sha256(&q[..end]);
            q[end..].copy_from_slice(&h);
            for i in 0..q.len() {
                m[i] ^= p[i] ^ q[i];
            }
        }
        Change::ZeroTag => {
            let k = m.len().saturating_sub(16);
            m[k..].fill(0);
        }
        Change::Pad { front, align, byte } => {
            let align = (*align).max(1) as usize;
            let n = align - m.len() % align;
            let pad = vec![*byte; n];
            let i = if *front { 0 } else { m.len() };
            m.splice(i..i, pad);
        }
        Change::Wrap(how) => m = wrap(&m, *how),
        Change::Rotate(i) => m.rotate_left(at(*i)),
        Change::Repeat => {
            let o = m.clone();
            m.extend(o);
        }
        Change::Reverse => m.reverse(),
    }
    Some(m)
}

/// Checks what one call delivered. `may`: indexes of messages that may be delivered by it.
fn judge(ctx: &Ctx, w: &World, bytes: &[u8], may: &mut Vec<usize>, got: Vec<Got>) -> Result<(), String> {
    for g in got {
        let Got::User { data } = g else { continue };
        if let Some(k) = may.iter().position(|i| w.written[*i].1 == data) {
            may.remove(k);
            continue;
        }
        if w.own.iter().any(|o| o == bytes)
            && ctx.known(
                "own-message-reflected",
                "a layer delivers its own user messages when they are sent back to it",
            )
        {
            continue;
        }
        let which = w.written.iter().position(|x| x.0 == bytes);
        return Err(format!(
            "a user message of {} was delivered after the arrival of {} bytes that {}",
            data.as_ref().map_or("no data".into(), |d| format!("{} bytes", d.len())),
            bytes.len(),
            match which {
                Some(i) => format!("are the peer's message {}, with other data", i),
                None if w.own.iter().any(|o| o == bytes) => "the layer itself wrote".into(),
                None => "the peer did not write in this session".to_string(),
            }
        ));
    }
    Ok(())
}

fn run_case(ctx: &Ctx, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let Ok(mut w) = world(c.mode, &c.cfg, c.at, c.seed, &c.sent, &c.back) else {
        obs.label("no session");
        return Ok(());
    };
    // arrived unaltered and not delivered yet (while held)
    let mut may: Vec<usize> = vec![];
    let mut acked = c.at != At::Held;
    for (i, arr) in c.arrivals.iter().enumerate() {
        if !acked && i == c.ack_after as usize {
            acked = true;
            let ack = w.ack.clone();
            if let Ok(g) = w.b.read_all(&ack) {
                judge(ctx, &w, &ack, &mut may, g).map_err(|e| format!("the ACK: {}", e))?;
            }
            may.clear();
        }
        let Some(mut m) = source(&w, &arr.src) else { continue };
        if let Some(ch) = &arr.change {
            let Some(x) = apply(&w, m, ch) else { continue };
            m = x;
        }
        let genuine = w.written.iter().position(|x| x.0 == m);
        match genuine {
            Some(k) => may.push(k),
            None => {
                obs.nontrivial();
                obs.label(match &arr.change {
                    None => "unaltered foreign",
                    Some(_) => "altered",
                });
            }
        }
        let r = w.b.read(&m);
        if let Ok(g) = r {
            judge(ctx, &w, &m, &mut may, g).map_err(|e| format!("arrival {}: {}", i, e))?;
        }
        if acked {
            may.clear();
        }
    }
    if !acked {
        let ack = w.ack.clone();
        if let Ok(g) = w.b.read_all(&ack) {
            judge(ctx, &w, &ack, &mut may, g).map_err(|e| format!("the ACK: {}", e))?;
        }
    }
    if let Ok(g) = w.b.drain() {
        judge(ctx, &w, b"", &mut may, g).map_err(|e| format!("at the end: {}", e))?;
    }
    let _ = &w.a;
    Ok(())
}

/// All alterations of one message around one byte.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near {
    mode: Mode,
    at: At,
    zip: bool,
    len: usize,
    /// From this byte on, this many.
    from: usize,
    count: usize,
}

fn run_near(ctx: &Ctx, c: &Near, obs: &mut Obs) -> Result<(), String> {
    let cfg = Cfg { level: 6, min_size: if c.zip { 0 } else { usize::MAX }, format: 0 };
    let make = || world(c.mode, &cfg, c.at, 4242, &[Payload::new(c.len, 3, 1), Payload::new(c.len, 3, 2)], &[]);
    let Ok(mut w) = make() else {
        obs.label("no session");
        return Ok(());
    };
    let m = w.written[0].0.clone();
    let mut changes = vec![];
    for i in c.from..(c.from + c.count).min(m.len()) {
        let i = i as u32;
        for k in 0..8 {
            changes.push(Change::Flip(i, k));
        }
        changes.push(Change::Truncate(i));
        changes.push(Change::Behead(i + 1));
        changes.push(Change::Insert(i, i as u8));
        changes.push(Change::Remove(i));
        changes.push(Change::Splice(i, Src::Sent(1)));
        changes.push(Change::Splice(i, Src::Other(0)));
        changes.push(Change::Rotate(i));
        changes.push(Change::Renumber(i as u64 + 2));
        changes.push(Change::Rewrite(i as u64, 0));
    }
    if c.from == 0 {
        for k in 1..80u8 {
            changes.push(Change::Extend(vec![k; k as usize]));
            changes.push(Change::Prepend(vec![k; k as usize]));
        }
        changes.push(Change::ZeroTag);
        changes.push(Change::Reverse);
        changes.push(Change::Repeat);
        changes.push(Change::TagOf(Src::Sent(1)));
        changes.push(Change::Concat(Src::Sent(1)));
        changes.push(Change::Rewrite(1, 1));
    }
    for ch in changes {
        let Some(x) = apply(&w, m.clone(), &ch) else { continue };
        if w.written.iter().any(|g| g.0 == x) {
            continue;
        }
        obs.extra += 1;
        obs.nontrivial();
        let mut fresh;
        let got = if c.at == At::Held {
            fresh = match make() {
                Ok(f) => f,
                Err(_) => return Ok(()),
            };
            let r = fresh.b.read(&x);
            let ack = fresh.ack.clone();
            r.and_then(|mut v| {
                v.extend(fresh.b.read_all(&ack)?);
                Ok(v)
            })
        } else {
            let Ok(mut b) = w.b.try_clone() else { return Ok(()) };
            b.read(&x)
        };
        if let Ok(g) = got {
            judge(ctx, &w, &x, &mut vec![], g).map_err(|e| format!("{:?}: {}", ch, e))?;
        }
    }
    Ok(())
}

fn src() -> impl Strategy<Value = Src> {
    prop_oneof![
        6 => any::<u8>().prop_map(Src::Sent),
        2 => any::<u8>().prop_map(Src::Own),
        2 => any::<u8>().prop_map(Src::Other),
        1 => any::<u8>().prop_map(Src::Nego),
        2 => (0u8..5, opt_payload(), any::<bool>()).prop_map(|(n, p, h)| Src::Clear(n, p, h)),
        2 => (any::<u8>(), 0u8..5, small_payload()).prop_map(|(k, n, p)| Src::Guess(k, n, p)),
        1 => small_payload().prop_map(Src::Random),
    ]
}

fn change() -> impl Strategy<Value = Change> {
    let pos = || prop_oneof![2 => 0u32..100, 2 => any::<u32>()];
    let bytes = || proptest::collection::vec(any::<u8>(), 1..40);
    prop_oneof![
        3 => (pos(), 0u8..8).prop_map(|(i, k)| Change::Flip(i, k)),
        1 => (pos(), pos(), 0u8..64).prop_map(|(i, j, k)| Change::FlipTwo(i, j, k)),
        1 => (pos(), 1u16..100, 1u8..=255).prop_map(|(i, l, v)| Change::XorRange(i, l, v)),
        1 => pos().prop_map(Change::Truncate),
        1 => pos().prop_map(Change::Behead),
        1 => bytes().prop_map(Change::Extend),
        1 => bytes().prop_map(Change::Prepend),
        1 => (pos(), any::<u8>()).prop_map(|(i, v)| Change::Insert(i, v)),
        1 => pos().prop_map(Change::Remove),
        2 => (pos(), src()).prop_map(|(i, s)| Change::Splice(i, s)),
        1 => src().prop_map(Change::TagOf),
        1 => src().prop_map(Change::Concat),
        2 => (any::<u64>(), any::<u8>()).prop_map(|(s, h)| Change::Rewrite(s, h)),
        1 => prop_oneof![0u64..10, any::<u64>()].prop_map(Change::Renumber),
        1 => Just(Change::ZeroTag),
        1 => (any::<bool>(), 1u32..300, any::<u8>()).prop_map(|(front, align, byte)| Change::Pad { front, align, byte }),
        1 => (0u8..WRAPS).prop_map(Change::Wrap),
        1 => pos().prop_map(Change::Rotate),
        1 => Just(Change::Repeat),
        1 => Just(Change::Reverse),
    ]
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    let p = move || {
        if max > 1000 {
            any_payload(max).boxed()
        } else {
            small_payload().boxed()
        }
    };
    // the alterations that fail the connection come last, else nothing after them counts
    (
        any_mode(),
        any_cfg(),
        prop_oneof![3 => Just(At::Done), 1 => Just(At::Cloned), 3 => Just(At::Held)],
        0u64..1 << 40,
        proptest::collection::vec(p(), 1..5),
        proptest::collection::vec(small_payload(), 0..3),
        proptest::collection::vec(any::<u8>(), 0..4),
        proptest::collection::vec((src(), proptest::option::weighted(0.75, change())), 1..4),
        0u8..6,
    )
        .prop_map(|(mode, cfg, at, seed, sent, back, first, rest, ack_after)| {
            let mut arrivals: Vec<Arrival> =
                first.into_iter().map(|i| Arrival { src: Src::Sent(i), change: None }).collect();
            arrivals.extend(rest.into_iter().map(|(src, change)| Arrival { src, change }));
            Case { mode, cfg, at, seed, sent, back, arrivals, ack_after }
        })
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut near = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for at in [At::Done, At::Cloned, At::Held] {
            let lens: &[usize] = match at {
                At::Done => ctx.pick(&[0usize, 1, 13, 60, 300, 2000][..], &[0, 1, 2, 5, 13, 31, 60, 90, 300, 2000, 9000]),
                At::Cloned => &[5, 200],
                At::Held => ctx.pick(&[20][..], &[0, 20, 100, 300]),
            };
            for len in lens {
                for zip in [false, true] {
                    if zip && mode == Mode::Minimal {
                        continue;
                    }
                    let step = if at == At::Held { 2 } else { 20 };
                    let mut from = 0;
                    while from < len + 100 {
                        near.push(Near { mode, at, zip, len: *len, from, count: step });
                        from += step;
                    }
                }
            }
        }
        // far into large messages
        for len in [70_000usize, 1_100_000] {
            for from in [0, len / 2, 65_536, len - 20, len + 40] {
                near.push(Near { mode, at: At::Done, zip: false, len, from, count: if len > 100_000 { 1 } else { 2 } });
            }
        }
    }
    ctx.each("every-bit", near, |c, o| run_near(ctx, c, o));
    let mut sized = vec![];
    for len in dict::data_sizes(100_000).into_iter().filter(|n| *n > 100) {
        for mode in [Mode::Minimal, Mode::Complete] {
            for from in [1, len / 2, len + 30, len + 62] {
                sized.push(Near { mode, at: At::Done, zip: false, len, from, count: 1 });
            }
        }
    }
    ctx.each("sizes-in-the-source", sized, |c, o| run_near(ctx, c, o));
    // what a transport adds, or how it carries the bytes
    let mut framed = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for at in [At::Done, At::Cloned, At::Held] {
            for len in [0usize, 5, 37, 300] {
                let mut changes: Vec<Change> = (0..WRAPS).map(Change::Wrap).collect();
                for align in [1u32, 2, 3, 4, 8, 12, 16, 20, 24, 32, 48, 64, 100, 128, 256, 512, 1000, 1024, 1500, 4096, 8192] {
                    for byte in [0u8, 1, b' ', b'\n', b'=', 0x80, 0xFF] {
                        changes.extend([false, true].map(|front| Change::Pad { front, align, byte }));
                    }
                }
                for (i, change) in changes.into_iter().enumerate() {
                    framed.push(Case {
                        mode,
                        cfg: Cfg::default(),
                        at,
                        seed: i as u64,
                        sent: vec![Payload::new(len, 1, 3), Payload::new(9, 1, 4)],
                        back: vec![],
                        arrivals: vec![Arrival { src: Src::Sent((i % 2) as u8), change: Some(change) }],
                        ack_after: 5,
                    });
                }
            }
        }
    }
    ctx.each("transport", framed, |c, o| run_case(ctx, c, o));
    ctx.prop("arrivals", ctx.pick(60_000, 2_000_000), || case(600), |c, o| run_case(ctx, c, o));
    ctx.prop("large", ctx.pick(2_000, 60_000), || case(200_000), |c, o| run_case(ctx, c, o));
    ctx.finish(
        RULE,
        "exploration",
        &["ChaCha20-Poly1305 is secure for one message per key and nonce; forgeries that use its repeated nonce are listed with C13"],
    )
}
