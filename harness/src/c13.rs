//! C13: user data is encrypted under fresh session keys.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::refcrypto::{pbkdf2_sha384_3, sha256, SessionKey};
use crate::setup::{self, own_seed, Stage};
use crate::sut::{Layer, Mode};
use crate::wire;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

const RULE: &str = "generated sessions with a model peer that knows the session key: the wire bytes of every user message must \
 open with that key to the message, must not open with any of some 300 keys made from what is public (ephemeral and \
 identity keys, zero secrets, other sessions) and must share no eight bytes in a row with the header, the content or the \
 compressed content; bits of the entropy a layer draws are flipped one by one, and nearly all of 256 must change its \
 ephemeral key and the session key; many layers with real randomness must have different ephemeral keys; no two \
 messages of a session may be encrypted with the same keystream. Non-trivial: a negotiated session with a user message of 16 bytes or more.";

/// A run of this many bytes in common does not happen by chance (2^-64 per pair of places).
const RUN: usize = 8;

/// A place in `wire` where `RUN` bytes of `plain` appear.
fn shared_run(wire: &[u8], plain: &[u8]) -> Option<usize> {
    if wire.len() < RUN || plain.len() < RUN {
        return None;
    }
    let key = |w: &[u8]| w.iter().fold(0u64, |a, b| a << 8 | *b as u64);
    let have: HashSet<u64> = plain.windows(RUN).map(key).collect();
    wire.windows(RUN).position(|w| have.contains(&key(w)))
}

/// Keys an eavesdropper can make.
pub fn public_keys(public: &[Vec<u8>]) -> Vec<SessionKey> {
    let mut secrets: Vec<Vec<u8>> = vec![vec![], vec![0; 32], vec![0; 48], vec![0xFF; 32]];
    secrets.extend(public.iter().cloned());
    secrets.extend(public.iter().map(|p| sha256(p).to_vec()));
    for a in public {
        for b in public {
            secrets.push([&a[..], b].concat());
            secrets.push(a.iter().zip(b).map(|(x, y)| x ^ y).collect());
        }
    }
    let mut salts: Vec<Vec<u8>> = vec![vec![]];
    salts.extend(public.iter().cloned());
    let mut out = vec![SessionKey([0; 48])];
    for s in &secrets {
        let mut direct = [0u8; 48];
        for (d, v) in direct.iter_mut().zip(s.iter()) {
            *d = *v;
        }
        out.push(SessionKey(direct));
        for salt in &salts {
            out.push(SessionKey(pbkdf2_sha384_3(s, salt)));
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    seed: u64,
    clone: bool,
    msgs: Vec<Payload>,
}

fn hidden(ctx: &Ctx, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let stage = if c.clone { Stage::Cloned } else { Stage::Done };
    let Ok(mut s) = setup::solo(c.mode, &c.cfg, false, stage, c.seed) else {
        obs.label("no session");
        return Ok(());
    };
    let own_epk = s.epk.unwrap_or([0; 32]);
    let key = s.peer.key.unwrap();
    let panel = public_keys(&[own_epk.to_vec(), s.peer.epk.to_vec(), s.own.pk().to_vec(), s.peer.id.pk().to_vec()]);
    let mut sent: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for p in &c.msgs {
        let b = p.bytes();
        let Ok(w) = s.layer.write(&b) else {
            obs.label("refused");
            return Ok(());
        };
        if let Some(at) = shared_run(&w, &b) {
            return Err(format!("the wire bytes of a message show its content at byte {}", at));
        }
        // (keys beyond the first would only cost time with large messages)
        for k in panel.iter().take(if w.len() > 30_000 { 12 } else { usize::MAX }) {
            obs.extra += 1;
            if k.open(&w).is_some() {
                return Err("a message opens with a key made from public values".into());
            }
        }
        if let Some(inner) = key.open(&w) {
            if let Some(at) = shared_run(&w, &inner) {
                return Err(format!("the wire bytes of a message show its header or its compressed content at byte {}", at));
            }
            sent.push((w, inner));
        } else if w.starts_with(&wire::MAGIC) {
            return Err("a user message is in clear".into());
        } else {
            return Err("a user message is not encrypted under the whole key derived from the secret shared by the \
                 two ephemeral keys: nothing vouches that only their owners can read it".into());
        }
        if b.len() >= 16 {
            obs.nontrivial();
        }
    }
    for i in 0..sent.len() {
        for j in 0..i {
            let n = sent[i].0.len().min(sent[j].0.len()).saturating_sub(16);
            let same = (0..n).all(|k| sent[i].0[k] ^ sent[i].1[k] == sent[j].0[k] ^ sent[j].1[k]);
            if n >= 16 && same {
                let what = "all messages of a session are encrypted with one key and nonce, thus with the same keystream";
                if ctx.known("keystream-reuse", what) {
                    obs.label("keystream reuse");
                } else {
                    return Err(what.into());
                }
            }
        }
    }
    Ok(())
}

/// Both layers are of the system under test: the bytes flow in both directions.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    mode: Mode,
    seed: u64,
    /// Whose entropy is altered.
    second: bool,
}

const DRAWN: usize = 64;

/// The ephemeral keys of both layers and a message of the first, with the given entropy.
fn session(mode: Mode, seed: u64, ent: [&[u8; DRAWN]; 2]) -> Result<([Vec<u8>; 2], Vec<u8>, [Layer; 2]), String> {
    let e = |e: crate::sut::E| e.to_string();
    entropy::set(seed);
    entropy::push_fixed(ent[0]);
    let mut a = Layer::create(mode, Cfg::default().get(), own_seed(seed, 1), None).map_err(e)?;
    let ca = a.connect(None).map_err(e)?;
    entropy::set(seed ^ 1);
    entropy::push_fixed(ent[1]);
    let mut b = Layer::create(mode, Cfg::default().get(), own_seed(seed, 2), None).map_err(e)?;
    let cb = b.connect(None).map_err(e)?;
    a.read(&cb).map_err(e)?;
    b.read(&ca).map_err(e)?;
    let aa = a.ack(None).map_err(e)?;
    let ab = b.ack(None).map_err(e)?;
    a.read(&ab).map_err(e)?;
    b.read(&aa).map_err(e)?;
    let m = a.write(b"the same words in every session").map_err(e)?;
    let epk = |c: &[u8]| c.get(18..50).unwrap_or_default().to_vec();
    Ok(([epk(&ca), epk(&cb)], m, [a, b]))
}

fn bits(c: &Bits, obs: &mut Obs) -> Result<(), String> {
    let base: [[u8; DRAWN]; 2] = [1, 2].map(|k| entropy::bytes_of(c.seed ^ k << 32, DRAWN).try_into().unwrap());
    entropy::set(c.seed);
    let drawn = {
        let Ok(_) = Layer::create(c.mode, Cfg::default().get(), own_seed(c.seed, 1), None) else { return Ok(()) };
        entropy::served()
    };
    if drawn == 0 {
        // no entropy of ours was asked for: either another source of randomness, or none
        entropy::off();
        obs.label("no entropy drawn through getrandom");
        return Ok(());
    }
    let Ok((epks, msg, _)) = session(c.mode, c.seed, [&base[0], &base[1]]) else {
        obs.label("no session");
        return Ok(());
    };
    let me = usize::from(c.second);
    let n = (drawn as usize).min(DRAWN) * 8;
    let (mut keys, mut texts) = (HashSet::from([epks[me].clone()]), HashSet::from([msg]));
    for i in 0..n {
        let mut alt = base;
        alt[me][i / 8] ^= 1 << (i % 8);
        let Ok((e, m, mut layers)) = session(c.mode, c.seed, [&alt[0], &alt[1]]) else { continue };
        obs.extra += 1;
        if e[1 - me] != epks[1 - me] {
            return Err("the ephemeral key of one layer depends on the entropy of the other".into());
        }
        let fresh = keys.insert(e[me].clone());
        if fresh != texts.insert(m.clone()) {
            return Err("the session's encryption does not follow its ephemeral key".into());
        }
        if i % 32 == 0 && fresh {
            // the messages of the first session mean nothing here
            let Ok((_, w, _)) = session(c.mode, c.seed, [&base[0], &base[1]]) else { continue };
            if layers[1].read(&w).is_ok() {
                return Err("a message of a session with other ephemeral keys is accepted".into());
            }
        }
    }
    // X25519 ignores five bits of a private key
    if keys.len() < 1 + 240 {
        return Err(format!(
            "only {} of the {} bits of entropy a layer draws influence its ephemeral key",
            keys.len() - 1,
            n
        ));
    }
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    mode: Mode,
    layers: u32,
    threads: u32,
    same_identity: bool,
    seed: u64,
}

fn real(c: &Many, obs: &mut Obs) -> Result<(), String> {
    entropy::off();
    let seen: Mutex<HashMap<Vec<u8>, u32>> = Mutex::new(HashMap::new());
    let seen = &seen;
    let weak = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..c.threads {
            let weak = &weak;
            sc.spawn(move || {
                for i in 0..c.layers / c.threads {
                    let id = if c.same_identity { 0 } else { (t * c.layers + i) as u64 };
                    let Ok(mut l) = Layer::create(c.mode, Cfg::default().get(), own_seed(c.seed, id), None) else { continue };
                    let Ok(m) = l.connect(None) else { continue };
                    let e = m.get(18..50).unwrap_or_default().to_vec();
                    // some bytes in common with a key seen before, at the same places
                    if e.iter().collect::<HashSet<_>>().len() < 12 {
                        weak.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    *seen.lock().unwrap().entry(e).or_default() += 1;
                }
            });
        }
    });
    let seen = seen.lock().unwrap();
    obs.extra += seen.values().map(|n| *n as u64).sum::<u64>();
    if let Some((_, n)) = seen.iter().find(|(_, n)| **n > 1) {
        return Err(format!("{} layers have the same ephemeral key", n));
    }
    // every part of the key varies: all eight bytes at each place take nearly every value
    for at in 0..4 {
        let parts: HashSet<&[u8]> = seen.keys().filter_map(|k| k.get(at * 8..at * 8 + 8)).collect();
        if parts.len() != seen.len() {
            return Err("ephemeral keys agree in eight bytes".into());
        }
    }
    if weak.load(std::sync::atomic::Ordering::Relaxed) > 0 {
        return Err("an ephemeral key with hardly any different bytes".into());
    }
    obs.nontrivial();
    Ok(())
}

/// Layers made one after the other from one stream of entropy.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Row {
    mode: Mode,
    seed: u64,
    layers: u8,
    /// Which of them get how far before the next is made.
    how: Vec<u8>,
}

fn row(c: &Row, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut kept = vec![];
    for i in 0..c.layers {
        let before = entropy::served();
        let Ok(mut l) = Layer::create(c.mode, Cfg::default().get(), own_seed(c.seed, 1), None) else { continue };
        let drawn = entropy::served() - before;
        let Ok(m) = l.connect(None) else { continue };
        let e = m.get(18..50).unwrap_or_default().to_vec();
        if seen.contains(&e) {
            return Err(format!("layer {} has the ephemeral key of an earlier one", i));
        }
        seen.push(e);
        if drawn != 0 && drawn < 32 {
            return Err(format!("layer {} drew only {} bytes of entropy", i, drawn));
        }
        match c.how.get(i as usize).copied().unwrap_or(0) % 4 {
            0 => kept.push(l),
            1 => drop(l),
            2 => {
                let p = crate::peer::Peer::new(c.seed, c.mode == Mode::Complete);
                let _ = l.read(&p.connect(None));
                kept.push(l);
            }
            _ => {
                let _ = l.read(b"nonsense");
            }
        }
    }
    if seen.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut b = vec![];
    for seed in 0..ctx.pick(4u64, 60) {
        for mode in [Mode::Minimal, Mode::Complete] {
            for second in [false, true] {
                b.push(Bits { mode, seed: ctx.seed << 8 | seed, second });
            }
        }
    }
    ctx.each("entropy-bits", b, bits);
    let mut m = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for same_identity in [false, true] {
            for threads in [1, 8] {
                m.push(Many { mode, layers: ctx.pick(2000, 100_000), threads, same_identity, seed: ctx.seed });
            }
        }
    }
    ctx.each("real-randomness", m, real);
    ctx.prop(
        "hidden",
        ctx.pick(3000, 60_000),
        || {
            (any_mode(), any_cfg(), any::<u64>(), any::<bool>(), proptest::collection::vec(any_payload(20_000), 1..5))
                .prop_map(|(mode, cfg, seed, clone, msgs)| Case { mode, cfg, seed, clone, msgs })
        },
        |c, o| hidden(ctx, c, o),
    );
    // every part of large messages is hidden
    let mut large = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for k in 13..=ctx.pick(20u32, 24) {
            for (len, kind) in [((1usize << k) - 100, 1u8), ((1 << k) + 300, 3), ((1 << k) + 5_000, 1)] {
                large.push(Case {
                    mode,
                    cfg: Cfg { level: 1, min_size: usize::MAX, format: 0 },
                    seed: k as u64,
                    clone: k % 3 == 0,
                    msgs: vec![Payload::new(len, kind, k as u64)],
                });
            }
        }
    }
    ctx.each("large", large, |c, o| hidden(ctx, c, o));
    ctx.prop(
        "rows",
        ctx.pick(3000, 100_000),
        || {
            (any_mode(), any::<u64>(), 2u8..8, proptest::collection::vec(any::<u8>(), 8))
                .prop_map(|(mode, seed, layers, how)| Row { mode, seed, layers, how })
        },
        row,
    );
    ctx.finish(RULE, "exploration", &["ring asks for entropy through getrandom; a layer that asked elsewhere would be judged by the distinctness of its keys only"])
}
