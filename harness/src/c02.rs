//! C02: binary payloads round-trip byte for byte.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::setup::{own_seed, pair, pair_keyed, Pair};
use crate::sut::{seen, Got, Layer, Mode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "sessions of two layers exchanging payloads described by (size, kind of content, seed), or by how they differ from the one before: every size \
 from 0 to 9000, sizes around all powers of two up to several MiB, all compression levels, thresholds around the size, \
 sessions of more than 65,536 messages, sessions of chosen keys whose ciphertexts begin like clear messages or whose
 secrets begin or end with zeros, CONNECT and ACK data of every small size and large ones. Non-trivial: at least \
 one non-empty payload was delivered and compared.";

fn show(want: &Option<Vec<u8>>, got: &[Got]) -> String {
    let have: Option<&Vec<u8>> = match got {
        [Got::User { data }] | [Got::Ack { data }] | [Got::Connect { data, .. }] => data.as_ref(),
        _ => None,
    };
    let w = want.clone().unwrap_or_default();
    let first = have.and_then(|h| (0..w.len().max(h.len())).find(|i| h.get(*i) != w.get(*i)));
    format!(
        "reported {:?} instead of {} bytes{}",
        got.iter().map(|g| g.brief()).collect::<Vec<_>>(),
        w.len(),
        first.map_or(String::new(), |i| format!(", first difference at byte {}", i))
    )
}

/// One message from one layer to the other.
fn exchange(mode: Mode, from: &mut Layer, to: &mut Layer, d: &[u8]) -> Result<Vec<u8>, String> {
    let m = from.write(d).map_err(|e| format!("writing {} bytes: {}", d.len(), e))?;
    let g = to.read(&m).map_err(|e| format!("reading a message of {} bytes: {}", d.len(), e))?;
    let want = seen(mode, Some(d));
    if g != vec![Got::User { data: want.clone() }] {
        return Err(format!("a payload of {} bytes: {}", d.len(), show(&want, &g)));
    }
    Ok(m)
}

fn start(mode: Mode, a: &Cfg, b: &Cfg, seed: u64, obs: &mut Obs) -> Option<Pair> {
    started(pair(mode, a, b, seed), obs)
}

fn started(p: Result<Pair, String>, obs: &mut Obs) -> Option<Pair> {
    match p {
        Ok(p) => Some(p),
        Err(_) => {
            obs.label("no session");
            None
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    mode: Mode,
    cfg: (Cfg, Cfg),
    seed: u64,
    /// Chosen private ephemeral keys.
    #[serde(default)]
    keys: Option<([u8; 32], [u8; 32])>,
    /// From A (true) or B, and the payload; a configuration change before it, perhaps.
    msgs: Vec<(bool, Payload, Option<Cfg>)>,
}

fn run_session(c: &Session, obs: &mut Obs) -> Result<(), String> {
    let p = match &c.keys {
        Some(k) => pair_keyed(c.mode, &c.cfg.0, &c.cfg.1, c.seed, k),
        None => pair(c.mode, &c.cfg.0, &c.cfg.1, c.seed),
    };
    let Some(mut p) = started(p, obs) else { return Ok(()) };
    for (from_a, payload, change) in &c.msgs {
        let (f, t) = if *from_a { (&mut p.a, &mut p.b) } else { (&mut p.b, &mut p.a) };
        if let Some(cfg) = change {
            let _ = f.change_config(cfg.get());
        }
        let m = exchange(c.mode, f, t, &payload.bytes()).map_err(|e| format!("{:?}: {}", payload, e))?;
        if c.keys.is_some() && m.starts_with(&crate::wire::MAGIC[..2]) {
            obs.label("a ciphertext that begins like a clear message");
        }
        if payload.len > 0 {
            obs.nontrivial();
        }
        obs.extra += 1;
    }
    Ok(())
}

/// A run of consecutive sizes in one session.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sizes {
    mode: Mode,
    cfg: Cfg,
    kind: u8,
    from: usize,
    to: usize,
    step: usize,
}

fn run_sizes(c: &Sizes, obs: &mut Obs) -> Result<(), String> {
    let Some(mut p) = start(c.mode, &c.cfg, &c.cfg, c.from as u64, obs) else { return Ok(()) };
    let mut n = c.from;
    while n < c.to {
        let d = Payload::new(n, c.kind, n as u64).bytes();
        let (f, t) = if n % 2 == 0 { (&mut p.a, &mut p.b) } else { (&mut p.b, &mut p.a) };
        exchange(c.mode, f, t, &d)?;
        n += c.step;
        obs.extra += 1;
    }
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    mode: Mode,
    messages: u32,
    seed: u64,
    both: bool,
}

fn run_long(c: &Long, obs: &mut Obs) -> Result<(), String> {
    let cfg = Cfg { level: 1, min_size: 40, format: 0 };
    let Some(mut p) = start(c.mode, &cfg, &cfg, c.seed, obs) else { return Ok(()) };
    let mut s = c.seed;
    for i in 0..c.messages {
        let len = (splitmix(&mut s) % 60) as usize;
        let d = Payload::new(len, (i % 10) as u8, i as u64).bytes();
        let flip = c.both && i % 2 == 1;
        let (f, t) = if flip { (&mut p.b, &mut p.a) } else { (&mut p.a, &mut p.b) };
        exchange(c.mode, f, t, &d).map_err(|e| format!("message number {}: {}", i, e))?;
        obs.extra += 1;
    }
    obs.nontrivial();
    Ok(())
}

/// How a payload differs from the one before it.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Vary {
    Same,
    /// This byte of a thousand, changed in this way.
    Byte(u16, u8),
    /// Two pieces exchanged.
    Swap(u16, u16, u8),
    /// Cut to so many thousandths.
    Cut(u16),
    Extend(u16, u8),
    Reverse,
}

/// Payloads that are nearly the same, one after the other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Related {
    mode: Mode,
    cfg: Cfg,
    seed: u64,
    base: Payload,
    /// From A, changed in this way, and whether the writer goes on with a clone.
    steps: Vec<(bool, Vary, bool)>,
}

fn run_related(c: &Related, obs: &mut Obs) -> Result<(), String> {
    let Some(mut p) = start(c.mode, &c.cfg, &c.cfg, c.seed, obs) else { return Ok(()) };
    let mut d = c.base.bytes();
    exchange(c.mode, &mut p.a, &mut p.b, &d)?;
    for (i, (from_a, v, clone)) in c.steps.iter().enumerate() {
        let n = d.len();
        let at = |k: u16| (k as usize * n.saturating_sub(1)) / 999;
        match v {
            Vary::Same => {}
            Vary::Byte(k, x) => {
                if n > 0 {
                    d[at(*k)] ^= x;
                }
            }
            Vary::Swap(j, k, l) => {
                let (j, k) = (at(*j), at(*k));
                for o in 0..*l as usize {
                    if j + o < n && k + o < n {
                        d.swap(j + o, k + o);
                    }
                }
            }
            Vary::Cut(k) => d.truncate(at(*k)),
            Vary::Extend(k, b) => {
                if n < 500_000 {
                    d.resize(n + *k as usize, *b)
                }
            }
            Vary::Reverse => d.reverse(),
        }
        let (f, t) = if *from_a { (&mut p.a, &mut p.b) } else { (&mut p.b, &mut p.a) };
        if *clone {
            if let Ok(k) = f.try_clone() {
                *f = k;
            }
        }
        exchange(c.mode, f, t, &d).map_err(|e| format!("message {} of payloads that are nearly the same ({:?}): {}", i + 1, v, e))?;
        obs.extra += 1;
    }
    if !d.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

/// CONNECT and ACK data.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Custom {
    mode: Mode,
    cfg: Cfg,
    connect: Payload,
    ack: Payload,
    /// The ACK comes before the CONNECT of the same side.
    early: bool,
    seed: u64,
}

fn run_custom(c: &Custom, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let make = |n| Layer::create(c.mode, c.cfg.get(), own_seed(c.seed, n), None);
    let (Ok(mut a), Ok(mut b)) = (make(1), make(2)) else { return Ok(()) };
    let (Ok(cb), Ok(_)) = (b.connect(None), a.change_config(c.cfg.get())) else { return Ok(()) };
    let dc = c.connect.bytes();
    let da = c.ack.bytes();
    if a.read(&cb).is_err() {
        obs.label("no session");
        return Ok(());
    }
    let mc = a.connect(Some(&dc)).map_err(|e| format!("creating a CONNECT with {} bytes: {}", dc.len(), e))?;
    let ma = a.ack(Some(&da)).map_err(|e| format!("creating an ACK with {} bytes: {}", da.len(), e))?;
    let pk = crate::refcrypto::Identity::new(own_seed(c.seed, 1)).pk().to_vec();
    let wc = Got::Connect { key: pk, data: seen(c.mode, Some(&dc)) };
    let wa = Got::Ack { data: seen(c.mode, Some(&da)) };
    let mut got = vec![];
    let order = if c.early { [&ma, &mc] } else { [&mc, &ma] };
    for m in order {
        got.extend(b.read_all(m).map_err(|e| {
            format!("CONNECT data of {} and ACK data of {} bytes: {}", dc.len(), da.len(), e)
        })?);
    }
    if got.len() != 2 || got[0] != wc {
        return Err(format!("CONNECT data: {}", show(&seen(c.mode, Some(&dc)), &got[..1.min(got.len())])));
    }
    if got[1] != wa {
        return Err(format!("ACK data: {}", show(&seen(c.mode, Some(&da)), &got[1..])));
    }
    if dc.len() + da.len() > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn modes() -> [Mode; 2] {
    [Mode::Minimal, Mode::Complete]
}

pub fn run(ctx: &Ctx) -> i32 {
    // every small size
    let mut sizes = vec![];
    let (lim, kinds): (usize, Vec<u8>) = ctx.pick((9_024, vec![1, 3]), (40_000, (0..KINDS).collect()));
    for mode in modes() {
        for kind in &kinds {
            let cfgs: Vec<Cfg> = match mode {
                Mode::Minimal => vec![Cfg::default()],
                Mode::Complete => [
                    (0, 0), (1, 0), (2, 100), (3, 1_000), (4, 0), (6, 0), (7, 2_048), (8, 0), (9, 4_500), (1, 8_192),
                    (5, usize::MAX),
                ]
                    .into_iter()
                    .map(|(level, min_size)| Cfg { level, min_size, format: 0 })
                    .collect(),
            };
            for cfg in cfgs {
                for from in (0..lim).step_by(128) {
                    sizes.push(Sizes { mode, cfg: cfg.clone(), kind: *kind, from, to: from + 128, step: 1 });
                }
            }
        }
    }
    ctx.each("every-size", sizes, run_sizes);
    // the numbers that stand in pkstl's source as sizes, the byte strings there as contents
    let mut source = vec![];
    let numbers: Vec<usize> = crate::dict::get().numbers.iter().copied().filter(|n| *n <= 3_000_000).map(|n| n as usize).collect();
    for mode in modes() {
        for n in &numbers {
            for d in [0usize, 26, 58, 74] {
                for (kind, level, min_size) in [(1u8, 1u32, 0usize), (3, 6, *n), (0, 9, 0), (3, 0, 0), (1, 1, 8192)] {
                    let from = n.saturating_sub(d + 1);
                    // the large ones in fewer ways
                    if (*n > 200_000 && (d == 26 || kind != 1)) || (mode == Mode::Minimal && kind == 3 && level == 0) {
                        continue;
                    }
                    source.push(Sizes { mode, cfg: Cfg { level, min_size, format: 0 }, kind, from, to: from + 3, step: 1 });
                }
            }
        }
    }
    source.sort_by_key(|s| s.from);
    ctx.each("sizes-in-the-source", source, run_sizes);
    let mut source = vec![];
    for mode in modes() {
        for (i, s) in crate::dict::get().strings.iter().enumerate() {
            for min_size in [0usize, 8192] {
                let n = crate::dict::get().strings.len();
                let msgs = (0..4)
                    .flat_map(|place| [s.len(), s.len() + 4, 300, 9000].map(|len| (true, Payload::new(len, 11, (place * n + i) as u64), None)))
                    .collect();
                source.push(Session {
                    mode,
                    cfg: (Cfg { level: 1, min_size, format: 0 }, Cfg::default()),
                    seed: i as u64,
                    keys: None,
                    msgs,
                });
            }
        }
    }
    ctx.each("bytes-in-the-source", source, run_session);
    // around the powers of two and their multiples
    let mut edges = vec![];
    for mode in modes() {
        for k in 13..=ctx.pick(21, 25) {
            for kind in [0u8, 1, 3] {
                for level in ctx.pick(vec![1u32, 6], (0..10).collect()) {
                    if mode == Mode::Minimal && level != 1 {
                        continue;
                    }
                    let n = 1usize << k;
                    let cfg = Cfg { level, min_size: n, format: 0 };
                    for d in [0usize, 20, 26, 32, 58, 74] {
                        let from = n - d - 2;
                        let big = k > 17;
                        if big && d != 0 && d != 58 {
                            continue;
                        }
                        edges.push(Sizes {
                            mode,
                            cfg: cfg.clone(),
                            kind,
                            from,
                            to: from + 5,
                            step: if k > 19 { 2 } else { 1 },
                        });
                    }
                }
            }
        }
    }
    edges.sort_by_key(|s| s.from);
    ctx.each("size-edges", edges, run_sizes);
    // custom data
    let mut custom = vec![];
    for mode in modes() {
        for n in (0..ctx.pick(700usize, 9_000)).chain([4_096, 8_100, 8_192, 8_193, 65_536, 100_000, 300_000]) {
            for early in [false, true] {
                custom.push(Custom {
                    mode,
                    cfg: Cfg { level: (n % 10) as u32, min_size: [0, 50, 8192, 100_000][n % 4], format: 0 },
                    connect: Payload::new(n, (n % 10) as u8, n as u64),
                    ack: Payload::new(if n % 3 == 0 { n / 2 } else { n }, (n / 2 % 10) as u8, n as u64 + 1),
                    early,
                    seed: n as u64,
                });
            }
        }
    }
    ctx.each("connect-and-ack-data", custom, run_custom);
    // sessions that are rare: their ciphertexts begin like clear messages, or their secrets with zeros
    let mut rare = vec![];
    for (i, k) in crate::keypairs::all().into_iter().enumerate() {
        for mode in modes() {
            let n = i as u64;
            let msgs = [(0, 0u8), (1, 1), (2, 1), (5, 2), (100, 1), (1000, 3), (9000, 1)]
                .iter()
                .enumerate()
                .flat_map(|(j, (len, kind))| {
                    [true, false].map(|a| (a, Payload::new(*len, *kind, n + j as u64), None))
                })
                .collect();
            rare.push(Session { mode, cfg: (Cfg::default(), Cfg::default()), seed: n, keys: Some(k), msgs });
        }
    }
    ctx.each("rare-sessions", rare, run_session);
    let mut numbers = vec![];
    let around: Vec<usize> = crate::dict::around(2_000_000).into_iter().map(|n| n as usize).collect();
    for mode in modes() {
        for (i, n) in around.iter().enumerate() {
            for early in [false, true] {
                numbers.push(Custom {
                    mode,
                    cfg: Cfg { level: (i % 10) as u32, min_size: [0, *n, 8192][i % 3], format: 0 },
                    connect: Payload::new(*n, (i % 12) as u8, i as u64),
                    ack: Payload::new(around[(i * 7 + 3) % around.len()], (i / 3 % 12) as u8, i as u64 + 1),
                    early,
                    seed: i as u64,
                });
            }
        }
    }
    ctx.each("connect-and-ack-sizes-in-the-source", numbers, run_custom);
    let mut related = vec![];
    for mode in modes() {
        for len in [1usize, 30, 700, 5_000, 9_000, 20_000, 70_000, 300_000] {
            for kind in [1u8, 3, 0] {
                let mut steps = vec![];
                for k in [999u16, 0, 500, 50, 950, 998] {
                    steps.push((true, Vary::Byte(k, 1), false));
                    steps.push((true, Vary::Swap(k, 999 - k, 1), false));
                }
                steps.extend([(true, Vary::Same, false), (false, Vary::Same, false), (false, Vary::Byte(999, 5), false)]);
                steps.extend([(true, Vary::Cut(998), true), (true, Vary::Extend(1, 0), false), (true, Vary::Reverse, true)]);
                let cfg = Cfg { level: 1 + (len % 7) as u32, min_size: [0, 8192, usize::MAX][kind as usize % 3], format: 0 };
                related.push(Related { mode, cfg, seed: len as u64, base: Payload::new(len, kind, 1), steps });
            }
        }
    }
    ctx.each("nearly-the-same", related, run_related);
    ctx.prop(
        "related",
        ctx.pick(1500, 50_000),
        || {
            let k = || prop_oneof![Just(0u16), Just(999u16), 0u16..1000];
            let vary = prop_oneof![
                1 => Just(Vary::Same),
                4 => (k(), 1u8..=255).prop_map(|(k, x)| Vary::Byte(k, x)),
                2 => (k(), k(), 1u8..40).prop_map(|(j, k, l)| Vary::Swap(j, k, l)),
                1 => k().prop_map(Vary::Cut),
                1 => (1u16..2000, any::<u8>()).prop_map(|(k, b)| Vary::Extend(k, b)),
                1 => Just(Vary::Reverse),
            ];
            (
                any_mode(),
                any_cfg(),
                0u64..1 << 32,
                any_payload(40_000),
                proptest::collection::vec((prop::bool::weighted(0.8), vary, prop::bool::weighted(0.1)), 1..8),
            )
                .prop_map(|(mode, cfg, seed, base, steps)| Related { mode, cfg, seed, base, steps })
        },
        run_related,
    );
    ctx.prop(
        "sessions",
        ctx.pick(12_000, 300_000),
        || {
            (
                any_mode(),
                (any_cfg(), any_cfg()),
                0u64..1 << 32,
                proptest::collection::vec(
                    (
                        any::<bool>(),
                        any_payload(70_000),
                        prop_oneof![4 => Just(None), 1 => any_cfg().prop_map(Some)],
                    ),
                    1..12,
                ),
            )
                .prop_map(|(mode, cfg, seed, msgs)| Session { mode, cfg, seed, keys: None, msgs })
        },
        run_session,
    );
    ctx.prop(
        "large",
        ctx.pick(500, 8_000),
        || {
            (
                any_mode(),
                (any_cfg(), any_cfg()),
                0u64..1 << 32,
                proptest::collection::vec(
                    (any::<bool>(), any_payload(3_000_000), Just(None)),
                    1..3,
                ),
            )
                .prop_map(|(mode, cfg, seed, msgs)| Session { mode, cfg, seed, keys: None, msgs })
        },
        run_session,
    );
    // one at a time: very large ones
    let mut huge = vec![];
    for mode in modes() {
        for (len, kind) in ctx.pick(
            vec![(17_000_000usize, 1u8), (40_000_000, 3), (160_000_000, 0)],
            vec![(17_000_000, 1), (70_000_000, 3), (160_000_000, 1), (300_000_000, 0), (1_100_000_000, 6)],
        ) {
            let big = Payload::new(len, kind, 5);
            huge.push(Session {
                mode,
                cfg: (Cfg::default(), Cfg::default()),
                seed: 3,
                keys: None,
                msgs: vec![(true, big, None), (true, Payload::new(5, 1, 1), None)],
            });
        }
    }
    huge.sort_by_key(|s| s.msgs[0].1.len);
    ctx.each("huge", huge, run_session);
    if !ctx.quick() {
        // beyond 32 bits
        for mode in modes() {
            let msgs = vec![(true, Payload::new((1usize << 32) + 70_000, 0, 5), None), (true, Payload::new(5, 1, 1), None)];
            ctx.each("beyond-32-bits", vec![Session { mode, cfg: (Cfg::default(), Cfg::default()), seed: 4, keys: None, msgs }], run_session);
        }
    }
    let n = ctx.pick(70_000, 300_000);
    let mut long = vec![];
    for mode in modes() {
        for both in [false, true] {
            long.push(Long { mode, messages: n * (1 + both as u32), seed: 7, both });
        }
    }
    if !ctx.quick() {
        long.push(Long { mode: Mode::Minimal, messages: 17_000_000, seed: 8, both: false });
    }
    ctx.each("long-session", long, run_long);
    ctx.finish(RULE, "exploration", &[])
}
