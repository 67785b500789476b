//! C14: clones continue the same session consistently.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::setup::{own_seed, Pair};
use crate::sut::{self, Got, Layer, Mode};
use crate::values::Val;
use pkstl::{IncomingMessage, SecureLayerConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::BufWriter;

const RULE: &str = "generated trees of clones of one side of a session, with the peer's messages arriving at the handles in any \
 order and repeatedly, writes by any handle, attempts to write CONNECT and ACK and to change the configuration, compared \
 with a model in which each handle starts as a copy of what the cloned one had delivered and written. A message read \
 by another handle after the cloning, and a number another handle used after it, may be taken either way. Enumerated: \
 up to 65,600 clones of one layer, in a star or a chain, kept or dropped, and clones made while up to thousands of \
 messages wait for missing ones (every message then arrives at every handle again). Non-trivial: \
 a clone was made and afterwards at least one handle read and one wrote.";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Clone(u8),
    /// The peer writes one more message.
    PeerWrites(Payload),
    /// A handle reads the peer's message (counted from the newest).
    Read(u8, u8),
    /// A handle reads the next message it has not seen.
    Next(u8),
    Write(u8, Payload),
    Typed(u8, Val),
    /// The peer gets a message a second time.
    Echo(u8),
    Connect(u8, Option<Payload>),
    Ack(u8, Option<Payload>),
    TypedConnect(u8),
    TypedAck(u8),
    Config(u8, Cfg),
    Drain(u8),
    Drop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    peer_cfg: Cfg,
    seed: u64,
    /// Messages of the peer that arrive before its ACK.
    held: u8,
    ops: Vec<Op>,
}

#[derive(Clone)]
struct Model {
    /// Numbers of the peer's messages delivered here or before the cloning.
    read: BTreeSet<usize>,
    /// Number of messages written, those before the cloning included.
    sent: u64,
    clones: bool,
    is_clone: bool,
    format: u8,
    held: Vec<usize>,
}

struct Handle {
    layer: Layer,
    m: Model,
}

/// Held messages, if any, are the peer's first ones.
fn negotiate(c: &Case) -> Result<(Pair, Vec<Vec<u8>>), String> {
    crate::entropy::set(c.seed);
    let s = |e: sut::E| format!("negotiation: {}", e);
    let keys = crate::keypairs::now_and_then(c.seed);
    if let Some(k) = &keys {
        crate::entropy::push_fixed(&k.0);
    }
    let mut a = Layer::create(c.mode, c.cfg.get(), own_seed(c.seed, 1), None).map_err(s)?;
    if let Some(k) = &keys {
        crate::entropy::push_fixed(&k.1);
    }
    let mut b = Layer::create(c.mode, c.peer_cfg.get(), own_seed(c.seed, 2), None).map_err(s)?;
    let m0 = a.connect(None).map_err(s)?;
    let m2 = b.connect(None).map_err(s)?;
    b.read(&m0).map_err(s)?;
    a.read(&m2).map_err(s)?;
    let m1 = a.ack(None).map_err(s)?;
    b.read(&m1).map_err(s)?;
    let m3 = b.ack(None).map_err(s)?;
    let mut early = vec![];
    // in complete mode the held messages come with the ACK, which other properties check
    if c.mode == Mode::Minimal {
        for i in 0..c.held {
            let m = b.write(&[i]).map_err(s)?;
            a.read(&m).map_err(s)?;
            early.push(m);
        }
    }
    a.read(&m3).map_err(s)?;
    Ok((Pair { a, b, msgs: [m0, m1, m2, m3] }, early))
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let Ok((p, early)) = negotiate(c) else {
        obs.label("no session");
        return Ok(());
    };
    let Pair { a, mut b, .. } = p;
    let mode = c.mode;
    // the peer's messages: bytes and payload
    let mut pool: Vec<(Vec<u8>, Option<Vec<u8>>)> =
        early.into_iter().enumerate().map(|(i, m)| (m, Some(vec![i as u8]))).collect();
    let mut hs: Vec<Handle> = vec![Handle {
        layer: a,
        m: Model {
            read: BTreeSet::new(),
            sent: 0,
            clones: false,
            is_clone: false,
            format: c.cfg.format,
            held: (0..pool.len()).collect(),
        },
    }];
    // what the peer got, and which numbers were used
    let mut wires: Vec<Vec<u8>> = vec![];
    let mut used: BTreeSet<u64> = BTreeSet::new();
    let (mut cloned, mut reads, mut writes, mut ambiguous) = (0, 0, 0, 0);
    for (at, op) in c.ops.iter().enumerate() {
        let n = hs.len();
        let fail = |what: String| Err(format!("step {} {:?}: {}", at, op, what));
        match op {
            Op::Clone(h) => {
                if n >= 9 {
                    continue;
                }
                let h = &mut hs[*h as usize % n];
                let layer = match h.layer.try_clone() {
                    Ok(l) => l,
                    Err(e) => return fail(format!("cloning a negotiated layer failed: {}", e)),
                };
                h.m.clones = true;
                let m = Model { is_clone: true, ..h.m.clone() };
                hs.push(Handle { layer, m });
                cloned += 1;
            }
            Op::PeerWrites(p) => {
                if let Ok(m) = b.write(&p.bytes()) {
                    pool.push((m, sut::seen(mode, Some(&p.bytes()))));
                }
            }
            Op::Read(..) | Op::Next(_) => {
                let (h, i) = match op {
                    Op::Read(h, k) => {
                        if pool.is_empty() {
                            continue;
                        }
                        (*h as usize % n, pool.len() - 1 - *k as usize % pool.len())
                    }
                    Op::Next(h) => {
                        let h = *h as usize % n;
                        let Some(i) = (0..pool.len()).find(|i| !hs[h].m.read.contains(i) && !hs[h].m.held.contains(i)) else {
                            continue;
                        };
                        (h, i)
                    }
                    _ => unreachable!(),
                };
                // one that is held here is refused or not, which C20 settles
                if hs[h].m.held.contains(&i) {
                    continue;
                }
                let elsewhere = hs.iter().enumerate().any(|(k, o)| k != h && o.m.read.contains(&i));
                let r = hs[h].layer.read(&pool[i].0);
                let m = &mut hs[h].m;
                let want = vec![Got::User { data: pool[i].1.clone() }];
                match r {
                    Ok(v) if v == want => {
                        if m.read.contains(&i) {
                            return fail(format!("message {} delivered again, though it was delivered before the cloning or here", i));
                        }
                        if cloned > 0 {
                            reads += 1;
                        }
                    }
                    Ok(v) => {
                        return fail(format!("message {} delivered as {:?}", i, v.iter().map(|g| g.brief()).collect::<Vec<_>>()))
                    }
                    Err(e) if m.read.contains(&i) || elsewhere => {
                        if !e.is("InvalidNonce") {
                            return fail(format!("message {} delivered already, refused with {}", i, e));
                        }
                        if !m.read.contains(&i) {
                            ambiguous += 1;
                        }
                    }
                    Err(e) => return fail(format!("message {} was delivered to no handle, yet refused: {}", i, e)),
                }
                m.read.insert(i);
            }
            Op::Write(h, _) | Op::Typed(h, _) => {
                let h = &mut hs[*h as usize % n];
                let bytes = match op {
                    Op::Write(_, p) => h.layer.write(&p.bytes()),
                    Op::Typed(_, v) => {
                        let Layer::Full(l) = &mut h.layer else { continue };
                        if h.m.format < 2 {
                            continue;
                        }
                        let mut w = BufWriter::new(Vec::new());
                        sut::catch(|| l.write(v, &mut w)).map(|_| w.into_inner().unwrap_or_default())
                    }
                    _ => unreachable!(),
                };
                let w = match bytes {
                    Ok(w) => w,
                    Err(e) => return fail(format!("write failed: {}", e)),
                };
                let taken = !used.insert(h.m.sent);
                h.m.sent += 1;
                let got: Result<bool, sut::E> = match (op, &mut b) {
                    (Op::Typed(_, v), Layer::Full(b)) => sut::catch(|| b.read::<Val>(&w)).map(|r| {
                        r.len() == 1 && matches!(&r[0], IncomingMessage::Message { data: Some(d) } if d == v)
                    }),
                    (Op::Write(_, p), b) => {
                        b.read(&w).map(|r| r == vec![Got::User { data: sut::seen(mode, Some(&p.bytes())) }])
                    }
                    _ => unreachable!(),
                };
                match got {
                    Ok(true) => {
                        if cloned > 0 {
                            writes += 1;
                        }
                    }
                    Ok(false) => return fail("the peer delivered something else".into()),
                    Err(e) if taken && e.is("InvalidNonce") => ambiguous += 1,
                    Err(e) => return fail(format!("the peer refused the next message: {}", e)),
                }
                wires.push(w);
            }
            Op::Echo(k) => {
                if wires.is_empty() {
                    continue;
                }
                let k = *k as usize % wires.len();
                if b.read(&wires[k]).is_ok() {
                    return fail("the peer delivered a message twice".into());
                }
            }
            Op::Connect(h, p) | Op::Ack(h, p) => {
                let h = &mut hs[*h as usize % n];
                let d = p.as_ref().map(|p| p.bytes());
                let r = match op {
                    Op::Connect(..) => h.layer.connect(d.as_deref()),
                    _ => h.layer.ack(d.as_deref()),
                };
                if r.is_ok() {
                    return fail(format!("a {} wrote it", if h.m.is_clone { "clone" } else { "negotiated layer" }));
                }
            }
            Op::TypedConnect(h) | Op::TypedAck(h) => {
                let h = &mut hs[*h as usize % n];
                let Layer::Full(l) = &mut h.layer else { continue };
                let mut w = BufWriter::new(Vec::new());
                let v = Val::Bool(true);
                let r = match op {
                    Op::TypedConnect(_) => sut::catch(|| l.write_connect_msg(Some(&v), &mut w)),
                    _ => sut::catch(|| l.write_ack_msg::<Val, _>(None, &mut w)),
                };
                let out = w.into_inner().unwrap_or_default();
                if r.is_ok() || !out.is_empty() {
                    return fail(format!("a {} wrote it", if h.m.is_clone { "clone" } else { "negotiated layer" }));
                }
            }
            Op::Config(h, cfg) => {
                let h = &mut hs[*h as usize % n];
                let r = h.layer.change_config(cfg.get());
                match (h.m.is_clone || h.m.clones, r) {
                    (true, Ok(())) => {
                        return fail(format!(
                            "the configuration of a {} was changed",
                            if h.m.is_clone { "clone" } else { "layer that was cloned" }
                        ))
                    }
                    (false, Ok(())) => h.m.format = cfg.format,
                    // that a change is possible before is another property
                    (_, Err(_)) => {}
                }
            }
            Op::Drain(h) => {
                let elsewhere: BTreeSet<usize> = hs
                    .iter()
                    .enumerate()
                    .filter(|(k, _)| *k != *h as usize % n)
                    .flat_map(|(_, o)| o.m.read.iter().cloned())
                    .collect();
                let h = &mut hs[*h as usize % n];
                let r = h.layer.drain();
                let held = std::mem::take(&mut h.m.held);
                let want: Vec<Got> = held.iter().map(|i| Got::User { data: pool[*i].1.clone() }).collect();
                let again = held.iter().any(|i| elsewhere.contains(i));
                match r {
                    Ok(v) if v == want => {}
                    Ok(v) if again && v.is_empty() => ambiguous += 1,
                    Err(e) if again && e.is("InvalidNonce") => ambiguous += 1,
                    other => {
                        return fail(format!(
                            "{} held messages, asked for: {:?}",
                            held.len(),
                            other.map(|v| v.iter().map(|g| g.brief()).collect::<Vec<_>>())
                        ))
                    }
                }
                h.m.read.extend(held);
            }
            Op::Drop(h) => {
                if n > 1 {
                    // what the handle had delivered or written stays delivered or written elsewhere
                    if hs[*h as usize % n].m.read.iter().any(|i| !hs.iter().enumerate().any(|(k, o)| k != *h as usize % n && o.m.read.contains(i))) {
                        continue;
                    }
                    hs.remove(*h as usize % n);
                }
            }
        }
    }
    if reads > 0 && writes > 0 {
        obs.nontrivial();
    }
    if ambiguous > 0 {
        obs.label("taken either way");
    }
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let h = || 0u8..6;
    prop_oneof![
        3 => h().prop_map(Op::Clone),
        4 => small_payload().prop_map(Op::PeerWrites),
        4 => (h(), 0u8..12).prop_map(|(h, k)| Op::Read(h, k)),
        3 => h().prop_map(Op::Next),
        5 => (h(), any_payload(10_000)).prop_map(|(h, p)| Op::Write(h, p)),
        1 => (h(), crate::values::val()).prop_map(|(h, v)| Op::Typed(h, v)),
        1 => any::<u8>().prop_map(Op::Echo),
        1 => (h(), opt_payload()).prop_map(|(h, p)| Op::Connect(h, p)),
        1 => (h(), opt_payload()).prop_map(|(h, p)| Op::Ack(h, p)),
        1 => h().prop_map(Op::TypedConnect),
        1 => h().prop_map(Op::TypedAck),
        1 => (h(), any_cfg()).prop_map(|(h, c)| Op::Config(h, c)),
        1 => h().prop_map(Op::Drain),
        1 => h().prop_map(Op::Drop),
    ]
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    (any_mode(), any_cfg(), any_cfg(), any::<u64>(), prop_oneof![2 => Just(0u8), 1 => 1u8..5], proptest::collection::vec(op(), 3..max))
        .prop_map(|(mode, cfg, peer_cfg, seed, held, ops)| Case { mode, cfg, peer_cfg, seed, held, ops })
}

/// One handle reads, another writes, in two threads, with messages before and after the cloning.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Split {
    mode: Mode,
    before: u32,
    gap: u32,
    after: u32,
    chain: u8,
    /// The clone writes and the original reads (else the other way round).
    clone_writes: bool,
    seed: u64,
}

fn split(c: &Split, obs: &mut Obs) -> Result<(), String> {
    let Ok(Pair { mut a, mut b, .. }) = crate::setup::pair(c.mode, &Cfg::default(), &Cfg::default(), c.seed) else {
        return Ok(());
    };
    let data = |k: u32, side: u8| [&k.to_be_bytes()[..], &[side]].concat();
    let user = |d: Vec<u8>| vec![Got::User { data: Some(d) }];
    let e = |e: sut::E| e.to_string();
    let mut skipped = vec![];
    for k in 0..c.before {
        let Ok(m) = b.write(&data(k, 1)) else { return Ok(()) };
        // every third is delayed while there is room for gaps
        if k % 3 == 0 && (skipped.len() as u32) < c.gap {
            skipped.push((k, m));
        } else if a.read(&m) != Ok(user(data(k, 1))) {
            return Ok(());
        }
        let Ok(m) = a.write(&data(k, 0)) else { return Ok(()) };
        if b.read(&m) != Ok(user(data(k, 0))) {
            return Ok(());
        }
    }
    let mut other = a.try_clone().map_err(|x| format!("cloning failed: {}", x))?;
    for i in 0..c.chain {
        let next = other.try_clone().map_err(|x| format!("cloning a clone failed: {}", x))?;
        if i % 2 == 0 {
            other = next;
        }
    }
    let (mut reader, mut writer) = if c.clone_writes { (a, other) } else { (other, a) };
    let (inbox, outbox): (Vec<_>, Vec<_>) = {
        let mut v = vec![];
        for k in c.before..c.before + c.after {
            v.push((k, b.write(&data(k, 1)).map_err(e)?));
        }
        v.extend(skipped);
        let mut old = vec![];
        for (i, x) in v.iter().enumerate() {
            if i % 5 == 0 {
                old.push(x.clone());
            }
        }
        (v, old)
    };
    let (r, w): (Result<(), String>, Result<Vec<Vec<u8>>, String>) = std::thread::scope(|sc| {
        let t1 = sc.spawn(|| {
            for (k, m) in &inbox {
                if reader.read(m) != Ok(user(data(*k, 1))) {
                    return Err(format!("the reading handle did not deliver message {}", k));
                }
            }
            for (k, m) in &outbox {
                match reader.read(m) {
                    Err(x) if x.is("InvalidNonce") => {}
                    other => return Err(format!("message {} again: {:?}", k, other.map(|v| v.len()))),
                }
            }
            Ok(())
        });
        let t2 = sc.spawn(|| {
            (c.before..c.before + c.after)
                .map(|k| writer.write(&data(k, 0)).map_err(|x| format!("the writing handle: {}", x)))
                .collect()
        });
        (t1.join().expect("reader"), t2.join().expect("writer"))
    });
    r?;
    for (i, m) in w?.iter().enumerate() {
        let k = c.before + i as u32;
        match b.read(m) {
            Ok(v) if v == user(data(k, 0)) => {}
            other => return Err(format!("the peer did not take message {} of the writing handle: {:?}", k, other.map(|v| v.len()))),
        }
    }
    obs.extra += (c.before + c.after) as u64;
    if c.before > 0 && c.after > 0 {
        obs.nontrivial();
    }
    Ok(())
}

/// More clones than anything counts.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    mode: Mode,
    n: u32,
    /// Each clone is made of the last one (else all of the first).
    chain: bool,
    /// All stay alive.
    keep: bool,
    seed: u64,
}

fn many(c: &Many, obs: &mut Obs) -> Result<(), String> {
    let Ok(Pair { mut a, mut b, .. }) = crate::setup::pair(c.mode, &Cfg::default(), &Cfg::default(), c.seed) else {
        return Ok(());
    };
    let user = |d: &[u8]| Ok(vec![Got::User { data: Some(d.to_vec()) }]);
    let (Ok(old), Ok(new)) = (b.write(b"old"), b.write(b"new")) else { return Ok(()) };
    if a.read(&old) != user(b"old") {
        return Ok(());
    }
    let mut kept: Vec<Layer> = vec![];
    let mut last: Option<Layer> = None;
    for k in 0..c.n {
        let from = match &mut last {
            Some(l) if c.chain => l,
            _ => &mut a,
        };
        let next = from.try_clone().map_err(|e| format!("clone {}: {}", k, e))?;
        obs.extra += 1;
        if let Some(l) = last.replace(next) {
            if c.keep {
                kept.push(l);
            }
        }
    }
    let Some(mut last) = last else { return Ok(()) };
    let n = kept.len();
    let mut first = true;
    let mut check = |l: &mut Layer, name: String| -> Result<(), String> {
        if l.read(&old).is_ok() {
            return Err(format!("{} delivered what was delivered before the cloning", name));
        }
        match l.read(&new) {
            r if r == user(b"new") => {
                first = false;
                Ok(())
            }
            // another handle has read it
            Err(e) if !first && e.is("InvalidNonce") => Ok(()),
            r => Err(format!("{}: a new message: {:?}", name, r.map(|v| v.len()))),
        }
    };
    check(&mut last, format!("the last of {} clones", c.n))?;
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if let Some(l) = kept.get_mut(i) {
            // the same handle is not asked twice
            if i == 0 || i != n / 2 || n > 2 {
                check(l, format!("clone {} of {}", i, c.n)).or_else(|e| if n <= 2 { Ok(()) } else { Err(e) })?;
            }
        }
    }
    for l in [&mut last, &mut a] {
        // the numbers of these go on from where the cloning was: the first one to write is heard
        let m = l.write(b"up").map_err(|e| format!("writing after {} clones: {}", c.n, e))?;
        match b.read(&m) {
            r if r == user(b"up") => break,
            r => return Err(format!("the first message written after {} clones: {:?}", c.n, r.map(|v| v.len()))),
        }
    }
    check(&mut a, format!("the original, after {} clones", c.n))?;
    obs.nontrivial();
    Ok(())
}

/// A clone made while many messages wait for missing ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Waiting {
    mode: Mode,
    n: u32,
    /// Which are missing: 0 the first; 1 every second; 2 the first half; 3 random ones; 4 every 17th.
    kind: u8,
    /// Clones of clones.
    depth: u8,
    /// Numbers of the handle itself, written before.
    own: u8,
    seed: u64,
}

fn waiting(c: &Waiting, obs: &mut Obs) -> Result<(), String> {
    let Ok(Pair { mut a, mut b, .. }) = crate::setup::pair(c.mode, &Cfg::default(), &Cfg::default(), c.seed) else {
        return Ok(());
    };
    let mut s = c.seed;
    let data = |k: u32| k.to_be_bytes();
    let user = |k: u32| Ok(vec![Got::User { data: Some(data(k).to_vec()) }]);
    for _ in 0..c.own {
        let Ok(m) = a.write(b"own") else { return Ok(()) };
        if b.read(&m).is_err() {
            return Ok(());
        }
    }
    let mut read = vec![];
    let mut missing = vec![];
    for k in 0..c.n {
        let Ok(m) = b.write(&data(k)) else { return Ok(()) };
        let miss = match c.kind % 5 {
            0 => k == 0,
            1 => k % 2 == 0,
            2 => k < c.n / 2,
            3 => splitmix(&mut s) & 1 == 0,
            _ => k % 17 == 0,
        };
        if miss {
            missing.push((k, m));
        } else if a.read(&m) == user(k) {
            read.push((k, m));
        } else {
            return Ok(());
        }
    }
    let mut handles = vec![];
    for i in 0..c.depth.max(1) {
        let last: &mut Layer = handles.last_mut().unwrap_or(&mut a);
        let next = last.try_clone().map_err(|e| format!("clone {}: {}", i, e))?;
        handles.push(next);
    }
    handles.push(a);
    let what = format!("with {} messages waiting for {} missing ones", read.len(), missing.len());
    for (i, h) in handles.iter_mut().enumerate() {
        let name = if i + 1 == c.depth.max(1) as usize + 1 { "the original".to_owned() } else { format!("clone {} made", i) };
        let again = |h: &mut Layer, (k, m): &(u32, Vec<u8>), when: &str| match h.read(m) {
            Err(e) if e.is("InvalidNonce") => Ok(()),
            r => Err(format!("{} {}: message {}, delivered before the cloning, {}: {:?}", name, what, k, when, r.map(|v| v.len()))),
        };
        for x in &read {
            again(h, x, "again")?;
        }
        // in the order of arrival, or the other one
        let order: Vec<_> = if i % 2 == 0 { missing.iter().collect() } else { missing.iter().rev().collect() };
        for (k, m) in &order {
            match h.read(m) {
                r if r == user(*k) => {}
                // another handle has read it
                Err(e) if i > 0 && e.is("InvalidNonce") => {}
                r => return Err(format!("{} {}: missing message {}: {:?}", name, what, k, r.map(|v| v.len()))),
            }
        }
        for x in read.iter().chain(order.iter().copied()) {
            again(h, x, "after all missing ones")?;
        }
        obs.extra += (read.len() * 2 + missing.len() * 2) as u64;
    }
    let m = b.write(&data(c.n)).map_err(|e| e.to_string())?;
    for (i, h) in handles.iter_mut().enumerate() {
        match h.read(&m) {
            r if r == user(c.n) => {}
            Err(e) if i > 0 && e.is("InvalidNonce") => {}
            r => return Err(format!("the next message, {}: {:?}", what, r.map(|v| v.len()))),
        }
    }
    // one of them has the next number of the handle
    let w = handles[0].write(b"up").map_err(|e| e.to_string())?;
    if b.read(&w) != Ok(vec![Got::User { data: Some(b"up".to_vec()) }]) {
        return Err(format!("the first message of a clone made {}", what));
    }
    if !read.is_empty() && !missing.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let _ = SecureLayerConfig::default();
    ctx.prop("trees", ctx.pick(40_000, 1_500_000), || case(40), run_case);
    ctx.prop("long-trees", ctx.pick(1500, 60_000), || case(300), run_case);
    ctx.prop(
        "split",
        ctx.pick(400, 10_000),
        || {
            (any_mode(), 0u32..400, 0u32..100, 0u32..400, 0u8..6, any::<bool>(), any::<u64>()).prop_map(
                |(mode, before, gap, after, chain, clone_writes, seed)| Split { mode, before, gap, after, chain, clone_writes, seed },
            )
        },
        split,
    );
    // cloned after numbers of messages that stand in the source
    let mut splits = vec![];
    for (i, n) in crate::dict::around(12_000).into_iter().enumerate() {
        for (mode, clone_writes) in [(Mode::Minimal, i % 2 == 0), (Mode::Complete, i % 2 == 1), (Mode::Minimal, i % 2 == 1)] {
            splits.push(Split { mode, before: n as u32, gap: if n < 9_000 { 3 } else { 0 }, after: 3, chain: (i % 3) as u8, clone_writes, seed: n });
        }
    }
    ctx.each("split-at-numbers-in-the-source", splits, split);
    let mut lots = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for chain in [false, true] {
            for keep in [false, true] {
                for n in [3, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 256, 257, 300, 1025, 4097, ctx.pick(10_000, 70_000)] {
                    lots.push(Many { mode, n, chain, keep, seed: n as u64 });
                }
            }
        }
        // one kind beyond sixteen bits also in the quick run
        lots.push(Many { mode, n: 65_600, chain: mode == Mode::Complete, keep: false, seed: 65 });
    }
    ctx.each("many", lots, many);
    ctx.prop(
        "waiting",
        ctx.pick(600, 20_000),
        || {
            (any_mode(), prop_oneof![3 => 1u32..80, 2 => 80u32..700, 1 => 700u32..1500], 0u8..5, 1u8..5, 0u8..9, any::<u64>())
                .prop_map(|(mode, n, kind, depth, own, seed)| Waiting { mode, n, kind, depth, own, seed })
        },
        waiting,
    );
    let mut lots = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for kind in 0..5 {
            for n in [2100, ctx.pick(4400, 9000), ctx.pick(8400, 33_000)] {
                lots.push(Waiting { mode, n, kind, depth: 1 + kind % 2, own: kind, seed: n as u64 });
            }
        }
    }
    ctx.each("many-waiting", lots, waiting);
    ctx.finish(RULE, "exploration", &[])
}
