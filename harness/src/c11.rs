//! C11: emitted messages follow the version 1 wire format.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::{sha256, x25519_base};
use crate::setup::own_seed;
use crate::sut::{Got, Layer, Mode};
use crate::values::{self, Val};
use crate::wire::{self, Decoded};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufWriter;

const RULE: &str = "one layer talks to an independent implementation of the format: every message it emits must be, byte for \
 byte, the reference encoding of (type, its ephemeral key or the challenge or the next number, data), signed or hashed, \
 and for user messages sealed with the key, nonce and associated data the reference derives; every message the reference \
 emits must be delivered. Ephemeral keys include pairs whose public keys agree in up to six leading or trailing bytes. \
 Non-trivial: the session completed and at least one user message went each way.";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Out(Payload),
    OutTyped(Val),
    In(Payload, u8),
    Config(Cfg),
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    expect: bool,
    /// 0: own CONNECT first; 1: the peer's first; 2: like 1, the peer's ACK before the own one.
    order: u8,
    seed: u64,
    /// Private ephemeral keys of the layer and of the peer, when chosen.
    keys: Option<([u8; 32], [u8; 32])>,
    data: [Option<Payload>; 4],
    steps: Vec<Step>,
}

/// The data field of a message that carries `want`.
fn data_ok(mode: Mode, field: &[u8], want: Option<&[u8]>) -> bool {
    match (mode, want) {
        (_, None) => field.is_empty(),
        (Mode::Minimal, Some(d)) => field == d,
        (Mode::Complete, Some(d)) => {
            (d.is_empty() && field.is_empty()) || wire::inflate(field).as_deref() == Some(d)
        }
    }
}

fn check_connect(mode: Mode, m: &[u8], pk: &[u8; 32], want: Option<&[u8]>) -> Result<[u8; 32], String> {
    match wire::decode(m, None, None) {
        Ok(Decoded::Connect { epk, sig_pk, data }) => {
            if sig_pk != *pk {
                return Err("CONNECT: names another signature key".into());
            }
            if !data_ok(mode, &data, want) {
                return Err("CONNECT: another data field than was given".into());
            }
            Ok(epk)
        }
        other => Err(format!("CONNECT: not of the format: {:?}", other.map(|_| "another type"))),
    }
}

fn check_ack(mode: Mode, m: &[u8], pk: &[u8; 32], epk: &[u8; 32], want: Option<&[u8]>) -> Result<(), String> {
    match wire::decode(m, None, Some(pk)) {
        Ok(Decoded::Ack { challenge, data }) => {
            if challenge != sha256(epk) {
                return Err("ACK: the challenge is not the SHA-256 of the peer's ephemeral key".into());
            }
            if !data_ok(mode, &data, want) {
                return Err("ACK: another data field than was given".into());
            }
            Ok(())
        }
        other => Err(format!("ACK: not of the format: {:?}", other.map(|_| "another type"))),
    }
}

fn check_user(peer: &Peer, m: &[u8], number: u64) -> Result<Vec<u8>, String> {
    let key = peer.key.as_ref().unwrap();
    match wire::decode(m, Some(key), None) {
        Ok(Decoded::User { nonce, data }) => {
            if nonce != number {
                return Err(format!("user message: number {} instead of {}", nonce, number));
            }
            Ok(data)
        }
        Ok(_) => Err("user message: another type".into()),
        Err(e) => Err(format!("user message: not of the format, or not sealed with the derived key: {}", e)),
    }
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let zipped = c.mode == Mode::Complete;
    let mut peer = Peer::new(c.seed ^ 0x11, zipped);
    entropy::set(c.seed);
    if let Some((own, his)) = &c.keys {
        entropy::push_fixed(own);
        peer.sk = *his;
        peer.epk = x25519_base(his);
    }
    let seed = own_seed(c.seed, 1);
    let pk = crate::refcrypto::Identity::new(seed).pk();
    let expected = c.expect.then(|| peer.id.pk().to_vec());
    let Ok(mut l) = Layer::create(c.mode, c.cfg.get(), seed, expected) else {
        obs.label("no layer");
        return Ok(());
    };
    let d: Vec<Option<Vec<u8>>> = c.data.iter().map(|p| p.as_ref().map(|p| p.bytes())).collect();
    let d = |i: usize| d[i].as_deref();
    // what a layer that does not follow another property would refuse is not this one's
    macro_rules! or_skip {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(_) => {
                    obs.label("refused");
                    return Ok(());
                }
            }
        };
    }
    macro_rules! interop {
        ($e:expr, $what:expr, $want:expr) => {
            match $e {
                Ok(v) if v == vec![$want] => {}
                Ok(v) => {
                    return Err(format!(
                        "the reference's {} was reported as {:?}",
                        $what,
                        v.iter().map(|g| g.brief()).collect::<Vec<_>>()
                    ))
                }
                Err(e) => return Err(format!("the reference's {} was refused: {}", $what, e)),
            }
        };
    }
    let seen = |w: Option<&[u8]>| crate::sut::seen(c.mode, w);
    if c.order == 0 {
        let m = or_skip!(l.connect(d(0)));
        peer.see_epk(check_connect(c.mode, &m, &pk, d(0))?);
    }
    interop!(l.read(&peer.connect(d(2))), "CONNECT", Got::Connect { key: peer.id.pk().to_vec(), data: seen(d(2)) });
    if c.order != 0 {
        let m = or_skip!(l.connect(d(0)));
        peer.see_epk(check_connect(c.mode, &m, &pk, d(0))?);
    }
    if c.order == 2 {
        interop!(l.read(&peer.ack(d(3))), "ACK", Got::Ack { data: seen(d(3)) });
    }
    let m = or_skip!(l.ack(d(1)));
    check_ack(c.mode, &m, &pk, &peer.epk, d(1))?;
    if c.order != 2 {
        interop!(l.read(&peer.ack(d(3))), "ACK", Got::Ack { data: seen(d(3)) });
    }
    let (mut sent, mut received) = (0u64, 0u64);
    let mut format = c.cfg.format;
    for s in &c.steps {
        match s {
            Step::Out(p) => {
                let b = p.bytes();
                let m = or_skip!(l.write(&b));
                let field = check_user(&peer, &m, sent)?;
                if !data_ok(c.mode, &field, Some(&b)) {
                    return Err(format!("user message {}: another data field than was written", sent));
                }
                sent += 1;
            }
            Step::OutTyped(v) => {
                let Layer::Full(f) = &mut l else { continue };
                if format < 2 {
                    continue;
                }
                let mut w = BufWriter::new(Vec::new());
                or_skip!(crate::sut::catch(|| f.write(v, &mut w)));
                let m = w.into_inner().unwrap_or_default();
                let field = check_user(&peer, &m, sent)?;
                let plain = wire::inflate(&field).ok_or("typed user message: the data field is not a deflate stream")?;
                if values::decode::<Val>(&plain).as_ref() != Some(v) {
                    return Err("typed user message: not format header and encoding of the value".into());
                }
                sent += 1;
            }
            Step::In(p, level) => {
                let b = p.bytes();
                let field = if zipped { wire::deflate(&b, *level as u32 % 10) } else { b.clone() };
                let m = wire::user_msg(peer.key.as_ref().unwrap(), received, &field);
                received += 1;
                interop!(l.read(&m), "user message", Got::User { data: seen(Some(&b)) });
            }
            Step::Config(cfg) => {
                if l.change_config(cfg.get()).is_ok() {
                    format = cfg.format;
                }
            }
            Step::Clone => {
                if let Ok(n) = l.try_clone() {
                    l = n;
                }
            }
        }
    }
    if sent > 0 && received > 0 {
        obs.nontrivial();
    }
    if c.keys.is_some() {
        obs.label("chosen keys");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    mode: Mode,
    messages: u32,
    seed: u64,
    /// Emitted (else received).
    out: bool,
}

fn run_long(c: &Long, obs: &mut Obs) -> Result<(), String> {
    let Ok(mut s) = crate::setup::solo(c.mode, &Cfg::default(), false, crate::setup::Stage::Done, c.seed) else {
        return Ok(());
    };
    for i in 0..c.messages as u64 {
        let b = (i * 7).to_be_bytes();
        obs.extra += 1;
        if c.out {
            let Ok(m) = s.layer.write(&b) else { return Ok(()) };
            let field = check_user(&s.peer, &m, i)?;
            if !data_ok(c.mode, &field, Some(&b)) {
                return Err(format!("user message {}: another data field than was written", i));
            }
            continue;
        }
        match s.layer.read(&s.peer.user(i, Some(&b))) {
            Ok(v) if v == [Got::User { data: Some(b.to_vec()) }] => {}
            other => return Err(format!("the reference's message {}: {:?}", i, other)),
        }
    }
    obs.nontrivial();
    Ok(())
}

fn step(max: usize) -> impl Strategy<Value = Step> {
    prop_oneof![
        6 => any_payload(max).prop_map(Step::Out),
        5 => (any_payload(max), any::<u8>()).prop_map(|(p, l)| Step::In(p, l)),
        2 => values::val().prop_map(Step::OutTyped),
        1 => any_cfg().prop_map(Step::Config),
        1 => Just(Step::Clone),
    ]
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    let data = move || prop_oneof![1 => Just(None), 2 => any_payload(max).prop_map(Some)];
    let keys = crate::keypairs::all();
    (
        any_mode(),
        any_cfg(),
        any::<bool>(),
        0u8..3,
        any::<u64>(),
        prop_oneof![3 => Just(None), 1 => proptest::sample::select(keys).prop_map(Some)],
        (data(), data(), data(), data()),
        proptest::collection::vec(step(max), 1..12),
    )
        .prop_map(|(mode, cfg, expect, order, seed, keys, (a, b, c, d), steps)| Case {
            mode, cfg, expect, order, seed, keys, data: [a, b, c, d], steps,
        })
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut keyed = vec![];
    for (i, k) in crate::keypairs::all().into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            let p = |n| Payload::new(n, 1, i as u64);
            keyed.push(Case {
                mode,
                cfg: Cfg::default(),
                expect: i % 2 == 0,
                order: (i % 3) as u8,
                seed: i as u64,
                keys: Some(k),
                data: [None, Some(p(5)), Some(p(9)), None],
                steps: vec![Step::Out(p(30)), Step::In(p(20), 3), Step::Out(p(0)), Step::In(p(0), 0)],
            });
        }
    }
    ctx.each("near-equal-keys", keyed, run_case);
    let n = ctx.pick(65_700, 1_200_000);
    let mut long = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for out in [true, false] {
            long.push(Long { mode, messages: n, seed: 11, out });
            long.push(Long { mode, messages: 3000, seed: 12, out });
        }
    }
    ctx.each("numbers", long, run_long);
    ctx.prop("sessions", ctx.pick(20_000, 800_000), || case(12_000), run_case);
    ctx.prop("large", ctx.pick(300, 8_000), || case(3_000_000), run_case);
    ctx.finish(RULE, "exploration", &["the reference cryptography, checked against RFC vectors and ring at each start, is right"])
}
