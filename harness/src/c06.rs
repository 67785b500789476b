//! C06: user messages are never replayed; reordering is tolerated.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::setup::{solo, Solo, Stage};
use crate::sut::{Got, Layer, Mode, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const RULE: &str = "schedules of arrivals of correctly made user messages with arbitrary numbers: all words of up to six \
 arrivals over four numbers, random schedules with duplicates, ranges in every direction and stride, windows filled to \
 9,999, 10,000 and 10,001 messages beyond missing ones, numbers up to 2^64-1, sessions of up to 1,100,000 messages (thorough: 17,000,000) in which old ones arrive again; at one layer or its clone, or held before \
 the peer's ACK; compared arrival by arrival with a model that keeps the set of delivered numbers. Non-trivial: a \
 duplicate arrived or a message arrived out of order.";

const MAX: usize = 10_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    One(u64),
    /// From, how many, stride.
    Range(u64, u32, u32),
    /// The same numbers, last first.
    Down(u64, u32, u32),
    /// What arrived as the given one, again.
    Again(u32),
    /// Every arrival so far, again.
    AllAgain,
    /// The lowest number missing.
    Fill,
    /// Every number missing, from the lowest, at most this many.
    FillAll(u16),
    /// As many beyond the lowest missing one as give this many waiting.
    UpTo(u16),
    Write,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    seed: u64,
    /// Arrivals while the peer's ACK is missing.
    held: Vec<Op>,
    ops: Vec<Op>,
}

#[derive(Default)]
struct Model {
    next: u64,
    beyond: BTreeSet<u64>,
    failed: bool,
    arrived: Vec<u64>,
    dups: u64,
    unordered: u64,
}

#[derive(Debug, PartialEq)]
enum Want {
    Deliver,
    Duplicate,
    TooMany,
    Failed,
}

impl Model {
    fn arrive(&mut self, n: u64) -> Want {
        if self.failed {
            return Want::Failed;
        }
        if n < self.next || self.beyond.contains(&n) {
            self.dups += 1;
            return Want::Duplicate;
        }
        if n == self.next {
            self.next += 1;
            while self.beyond.remove(&self.next) {
                self.next += 1;
            }
            return Want::Deliver;
        }
        self.unordered += 1;
        if self.beyond.len() >= MAX {
            self.failed = true;
            return Want::TooMany;
        }
        self.beyond.insert(n);
        Want::Deliver
    }
    fn lowest_missing(&self) -> u64 {
        self.next
    }
}

fn data(n: u64) -> Vec<u8> {
    format!("message {}", n).into_bytes()
}

fn numbers(m: &Model, op: &Op) -> Vec<u64> {
    match op {
        Op::One(n) => vec![*n],
        Op::Range(a, k, s) => (0..*k as u64).map(|i| a.saturating_add(i * (*s as u64).max(1))).collect(),
        Op::Down(a, k, s) => {
            (0..*k as u64).rev().map(|i| a.saturating_add(i * (*s as u64).max(1))).collect()
        }
        Op::Again(i) if m.arrived.is_empty() => {
            let _ = i;
            vec![]
        }
        Op::Again(i) => vec![m.arrived[*i as usize % m.arrived.len()]],
        Op::AllAgain => m.arrived.iter().take(300).copied().collect(),
        Op::Fill => vec![m.lowest_missing()],
        Op::FillAll(k) => {
            let mut v = vec![];
            let mut n = m.next;
            let top = m.beyond.iter().next_back().copied().unwrap_or(n);
            while v.len() < *k as usize && n <= top {
                if !m.beyond.contains(&n) {
                    v.push(n);
                }
                n += 1;
            }
            v
        }
        Op::UpTo(k) => {
            let mut v = vec![];
            let mut n = m.next + 1;
            while m.beyond.len() + v.len() < *k as usize {
                if !m.beyond.contains(&n) {
                    v.push(n);
                }
                n += 1;
            }
            v
        }
        Op::Write | Op::Clone => vec![],
    }
}

fn expect(want: Want, n: u64, got: R<Vec<Got>>) -> Result<(), String> {
    let ok = match (&want, &got) {
        (Want::Deliver, Ok(v)) => *v == [Got::User { data: Some(data(n)) }],
        (Want::Duplicate, Err(e)) => e.is("InvalidNonce"),
        (Want::TooMany, Err(e)) => e.is("TooManyUnorderedMsgs"),
        (Want::Failed, Err(e)) => !e.is_panic(),
        // C08 says what a failed connection does with a duplicate
        (Want::Failed, Ok(v)) => v.is_empty(),
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!(
        "message number {}: expected {}, got {}",
        n,
        match want {
            Want::Deliver => "its delivery",
            Want::Duplicate => "refusal of the duplicate (invalid nonce)",
            Want::TooMany => "refusal (too many unordered messages)",
            Want::Failed => "refusal after too many unordered messages",
        },
        match got {
            Ok(v) => format!("{:?}", v.iter().map(|g| g.brief()).collect::<Vec<_>>()),
            Err(e) => e.to_string(),
        }
    ))
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let stage = if c.held.is_empty() { Stage::Done } else { Stage::Waiting };
    let Ok(Solo { mut layer, peer, .. }) = solo(c.mode, &Cfg::default(), false, stage, c.seed) else {
        obs.label("no session");
        return Ok(());
    };
    let mut m = Model::default();
    // held: delivered in order of arrival when the ACK comes, a duplicate refused at once
    if !c.held.is_empty() {
        let mut waiting: Vec<u64> = vec![];
        let mut known = BTreeSet::new();
        for op in &c.held {
            for n in numbers(&m, op) {
                let got = layer.read(&peer.user(n, Some(&data(n))));
                m.arrived.push(n);
                if known.insert(n) {
                    waiting.push(n);
                    match got {
                        Ok(v) if v.is_empty() => {}
                        other => return Err(format!("held message {}: {:?}", n, other)),
                    }
                } else {
                    m.dups += 1;
                    match got {
                        Err(e) if e.is("InvalidNonce") => {}
                        other => return Err(format!("duplicate {} of a held message: {:?}", n, other)),
                    }
                }
            }
        }
        let got = layer.read_all(&peer.ack(None)).map_err(|e| format!("the ACK: {}", e))?;
        let mut want = vec![Got::Ack { data: None }];
        for n in waiting {
            match m.arrive(n) {
                Want::Deliver => want.push(Got::User { data: Some(data(n)) }),
                _ => return Ok(()), // more than 10,000 held out of order: not this part's
            }
        }
        if got != want {
            return Err(format!(
                "held messages: delivered {:?} instead of {:?}",
                got.iter().map(|g| g.brief()).collect::<Vec<_>>(),
                want.iter().map(|g| g.brief()).collect::<Vec<_>>()
            ));
        }
    }
    let mut after = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("step {} {:?}: {}", i, op, e);
        match op {
            Op::Write => {
                let r = layer.write(b"to the peer");
                if r.is_ok() == m.failed {
                    return Err(at(match r {
                        Ok(_) => "wrote although failed".into(),
                        Err(e) => format!("the session does not keep working: {}", e),
                    }));
                }
            }
            Op::Clone => {
                let r: R<Layer> = layer.try_clone();
                match r {
                    Ok(l) if !m.failed => layer = l,
                    Err(_) if m.failed => {}
                    Ok(_) => return Err(at("cloned although failed".into())),
                    Err(e) => return Err(at(format!("the session does not keep working: {}", e))),
                }
            }
            _ => {
                for n in numbers(&m, op) {
                    if m.failed {
                        after += 1;
                        if after > 20 {
                            break;
                        }
                    }
                    let got = layer.read(&peer.user(n, Some(&data(n))));
                    m.arrived.push(n);
                    obs.extra += 1;
                    expect(m.arrive(n), n, got).map_err(at)?;
                }
            }
        }
    }
    if m.dups > 0 || m.unordered > 0 {
        obs.nontrivial();
    }
    if m.dups > 0 {
        obs.label("duplicates");
    }
    if m.unordered > 0 {
        obs.label("out of order");
    }
    if m.beyond.len() >= MAX - 1 {
        obs.label("full window");
    }
    if m.failed {
        obs.label("window exceeded");
    }
    Ok(())
}

fn number() -> impl Strategy<Value = u64> {
    prop_oneof![
        8 => 0u64..12,
        3 => 0u64..200,
        1 => near_source(usize::MAX).prop_map(|n| n as u64),
        1 => prop_oneof![
            Just(u64::MAX), Just(u64::MAX - 1), Just(1 << 63), Just((1 << 63) - 1), Just(1 << 32), Just((1 << 32) - 1),
            Just(65_535), Just(65_536), Just(255), Just(256), Just(9_999), Just(10_000), Just(10_001), any::<u64>()
        ],
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        10 => number().prop_map(Op::One),
        2 => (number(), 1u32..40, 1u32..4).prop_map(|(a, k, s)| Op::Range(a, k, s)),
        2 => (number(), 1u32..40, 1u32..4).prop_map(|(a, k, s)| Op::Down(a, k, s)),
        4 => any::<u32>().prop_map(Op::Again),
        1 => Just(Op::AllAgain),
        4 => Just(Op::Fill),
        1 => (1u16..100).prop_map(Op::FillAll),
        1 => Just(Op::Write),
        1 => Just(Op::Clone),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    let held = prop_oneof![
        2 => Just(vec![]),
        1 => proptest::collection::vec(
            prop_oneof![
                4 => number().prop_map(Op::One),
                1 => (number(), 1u32..20, 1u32..3).prop_map(|(a, k, s)| Op::Down(a, k, s)),
                2 => any::<u32>().prop_map(Op::Again),
            ],
            1..10
        ),
    ];
    (any_mode(), 0u64..1 << 32, held, proptest::collection::vec(op(), 1..30))
        .prop_map(|(mode, seed, held, ops)| Case { mode, seed, held, ops })
}

/// A shuffle of 0..n with some repeated.
fn shuffled(n: u64, seed: u64, near: u64) -> Vec<Op> {
    let mut s = seed;
    let mut v: Vec<u64> = (0..n).collect();
    for i in 0..v.len() {
        let far = (v.len() - i).min(near as usize);
        let j = i + (splitmix(&mut s) as usize) % far.max(1);
        v.swap(i, j);
    }
    let mut ops = vec![];
    for (i, n) in v.iter().enumerate() {
        ops.push(Op::One(*n));
        if splitmix(&mut s) % 4 == 0 {
            ops.push(Op::Again((splitmix(&mut s) % (i as u64 + 1)) as u32));
        }
    }
    ops.push(Op::AllAgain);
    ops
}

/// Windows filled to the limit around missing numbers.
fn windows(deep: bool) -> Vec<Case> {
    let mut out = vec![];
    let before: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Range(0, 3, 1)],
        vec![Op::Range(2, 5, 1), Op::One(0), Op::One(9)],
        vec![Op::Range(1, 4000, 2)],
        vec![Op::Down(1, 6000, 1)],
        vec![Op::One(u64::MAX), Op::One(1 << 40)],
    ];
    for mode in [Mode::Minimal, Mode::Complete] {
        for (i, b) in before.iter().enumerate() {
            if !deep && mode == Mode::Complete && i % 2 == 1 {
                continue;
            }
            for up in [9_999u16, 10_000] {
                for exceed in [false, true] {
                    let mut ops = b.clone();
                    ops.push(Op::UpTo(up));
                    ops.push(Op::Write);
                    ops.push(Op::AllAgain);
                    ops.push(Op::Again(77));
                    if exceed {
                        // 9,999: two more; 10,000: one more
                        ops.push(Op::One((1 << 50) + 1));
                        ops.push(Op::One((1 << 50) + 2));
                        ops.push(Op::Write);
                        ops.push(Op::Fill);
                        ops.push(Op::Clone);
                    } else {
                        ops.push(Op::Fill);
                        ops.push(Op::AllAgain);
                        ops.push(Op::FillAll(3));
                        ops.push(Op::Write);
                        ops.push(Op::Clone);
                        ops.push(Op::UpTo(100));
                        ops.push(Op::Fill);
                        ops.push(Op::Again(5_000));
                    }
                    out.push(Case { mode, seed: 6 + i as u64, held: vec![], ops });
                }
            }
        }
        // far beyond the limit, but never too many at once
        out.push(Case { mode, seed: 1, held: vec![], ops: vec![Op::Down(0, 10_001, 1), Op::Down(10_001, 10_001, 1), Op::AllAgain, Op::Fill] });
        out.push(Case { mode, seed: 2, held: vec![], ops: vec![Op::Down(0, 10_002, 1), Op::Fill] });
        out.push(Case { mode, seed: 3, held: vec![], ops: vec![Op::Range(0, 25_000, 1), Op::AllAgain, Op::Again(24_999)] });
        out.push(Case { mode, seed: 4, held: vec![], ops: vec![Op::Range(1, 9_000, 2), Op::Range(0, 9_000, 2), Op::UpTo(10_000), Op::Fill, Op::UpTo(10_000), Op::One(1 << 45)] });
        // held messages count from the same limit when they are delivered
        out.push(Case { mode, seed: 5, held: vec![Op::Down(1, 40, 1), Op::Again(3)], ops: vec![Op::UpTo(10_000), Op::AllAgain, Op::Fill, Op::Fill, Op::AllAgain] });
    }
    out
}

/// A session of this many messages, in which old ones arrive again now and then: those the powers of two before, and any.
fn long(mode: Mode, count: u32, seed: u64) -> Case {
    let mut ops = vec![];
    let mut rnd = seed;
    let mut at = 0;
    let pieces = 12;
    for i in 1..=pieces {
        let upto = if i == pieces { count } else { (count as u64 * i / pieces) as u32 };
        ops.push(Op::Range(at as u64, upto - at, 1));
        at = upto;
        let mut k = 1u64;
        while k < at as u64 {
            for d in [k - 1, k, k + 1] {
                if let Some(n) = (at as u64).checked_sub(d + 1) {
                    ops.push(Op::One(n));
                }
                // the number itself, whatever the distance
                if d < at as u64 {
                    ops.push(Op::One(d));
                }
            }
            k *= 2;
        }
        for _ in 0..300 {
            rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ops.push(Op::Again((rnd >> 33) as u32));
        }
        // one of the next ones first
        ops.push(Op::One(at as u64 + 2));
        ops.push(Op::One(at as u64 + 2));
        ops.push(Op::One(at as u64));
        ops.push(Op::One(at as u64 + 1));
        at += 3;
    }
    Case { mode, seed, held: vec![], ops }
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut words = vec![];
    let sets: [[u64; 4]; 3] = [[0, 1, 2, 3], [0, 1, 2, u64::MAX], [0, 1, 5, 6]];
    for (k, set) in sets.iter().enumerate() {
        let longest = if k == 0 { ctx.pick(6, 7) } else { ctx.pick(4, 6) };
        for mode in [Mode::Minimal, Mode::Complete] {
            for len in 1..=longest {
                for w in 0..4u32.pow(len) {
                    let ops: Vec<Op> = (0..len).map(|i| Op::One(set[(w >> (2 * i)) as usize & 3])).collect();
                    words.push(Case { mode, seed: 600, held: vec![], ops: ops.clone() });
                    if k == 0 && len < longest {
                        words.push(Case { mode, seed: 601, held: ops, ops: vec![Op::AllAgain, Op::Fill, Op::Fill] });
                    }
                }
            }
        }
    }
    ctx.each("words", words, run_case);
    ctx.each("windows", windows(!ctx.quick()), run_case);
    let mut again = long(Mode::Minimal, 70_000, 43);
    again.ops.push(Op::Range(0, 70_000, 1));
    again.ops.push(Op::Fill);
    let mut longs = vec![long(Mode::Minimal, 1_100_000, 41), long(Mode::Complete, 270_000, 42), again];
    if !ctx.quick() {
        longs = vec![long(Mode::Minimal, 17_000_000, 44), long(Mode::Complete, 1_100_000, 45), long(Mode::Minimal, 1_100_000, 46)];
    }
    ctx.each("long-sessions", longs, run_case);
    let mut sh = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for i in 0..ctx.pick(60u64, 2000) {
            let n = [20, 100, 700][i as usize % 3];
            let near = [2, 5, 30, 10_000][i as usize / 3 % 4];
            sh.push(Case { mode, seed: i, held: vec![], ops: shuffled(n, ctx.seed.wrapping_mul(7919) ^ i, near) });
        }
    }
    ctx.each("shuffled", sh, run_case);
    ctx.prop("schedules", ctx.pick(20_000, 1_000_000), case, run_case);
    ctx.finish(RULE, "exploration", &[])
}
