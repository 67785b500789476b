//! C20: early messages are held and delivered exactly once.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::hist::{self, strat, *};
use crate::sut::Mode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "histories in which the ACK comes before its sender's CONNECT and user messages before the ACK, in any \
 number and order, some without data, with duplicates and forged ACKs, held messages asked for at any time, in both modes; compared step by \
 step with the reference machine. Non-trivial: an ACK or at least one user message was held, and the negotiation completed.";

fn check(h: &History, obs: &mut Obs) -> Result<(), String> {
    let (t, m) = hist::run(h)?;
    if (t.early || t.held > 0) && t.nego {
        obs.nontrivial();
    }
    if t.early {
        obs.label("early ack");
    }
    if t.held > 0 {
        obs.label(if t.held > 3 { "held > 3" } else { "held 1-3" });
    }
    let Some(m) = m else { return Ok(()) };
    let touched = t.early || t.held > 0;
    match m.kind {
        Kind::WrongReject | Kind::WrongData | Kind::WrongAccept if touched => Err(m.what),
        _ => Ok(()),
    }
}

fn early_user() -> impl Strategy<Value = Op> {
    (
        prop_oneof![20 => 0u64..10, 2 => 0u64..500, 1 => Just(u64::MAX)],
        small_payload(),
        prop_oneof![9 => Just(UV::Genuine), 1 => Just(UV::Bare)],
    )
        .prop_map(|(n, p, v)| Op::Recv(Msg::User(n, p, v)))
}

fn mix(
    n: std::ops::Range<usize>,
) -> impl Strategy<Value = Vec<Op>> {
    proptest::collection::vec(
        prop_oneof![
            8 => early_user(),
            2 => any::<u16>().prop_map(|i| Op::Recv(Msg::AgainUser(i))),
            2 => Just(Op::Drain),
            1 => Just(Op::Take),
        ],
        n,
    )
}

/// The ACK comes early, in any of the ways it can.
fn early_ack() -> impl Strategy<Value = History> {
    (
        strat::setup(),
        opt_payload(),
        opt_payload(),
        (opt_payload(), prop_oneof![6 => Just(AV::Genuine), 1 => any::<u8>().prop_map(AV::BadSig), 1 => Just(AV::Forged)]),
        proptest::collection::vec(
            prop_oneof![
                4 => Just(Op::Take),
                4 => Just(Op::Drain),
                2 => Just(Op::Clone),
                2 => Just(Op::Recv(Msg::Connect(None, CV::AttackerBadSig))),
                2 => Just(Op::Recv(Msg::Connect(None, CV::BadSig(3)))),
                2 => Just(Op::Recv(Msg::Ack(None, AV::BadChallenge(5)))),
                1 => any::<u8>().prop_map(|i| Op::Recv(Msg::Again(i % 2))),
                2 => (opt_payload(), prop_oneof![3 => Just(AV::Genuine), 1 => Just(AV::Forged), 1 => any::<u8>().prop_map(AV::BadSig)])
                    .prop_map(|(p, v)| Op::Recv(Msg::Ack(p, v))),
            ],
            0..4,
        ),
        (opt_payload(), any::<bool>(), any::<bool>(), any::<bool>()),
        mix(0..8),
    )
        .prop_map(|(mut setup, own, peers, (ackp, av), between, (own_ack, take_twice, late_ack, again), tail)| {
            if setup.expected == Expected::Other {
                setup.expected = Expected::None;
            }
            let mut ops = vec![Op::Connect(own), Op::Recv(Msg::Ack(ackp.clone(), av))];
            ops.extend(between);
            ops.push(Op::Recv(Msg::Connect(peers, CV::Genuine)));
            ops.push(Op::Take);
            if take_twice {
                ops.push(Op::Take);
            }
            if late_ack && av != AV::Genuine {
                ops.push(Op::Recv(Msg::Ack(ackp, AV::Genuine)));
            }
            ops.push(Op::Ack(own_ack));
            ops.extend(tail);
            ops.push(Op::Drain);
            if again {
                ops.push(Op::Take);
                ops.push(Op::Drain);
            }
            ops.push(Op::Write(Payload::new(9, 1, 1)));
            History { setup, ops }
        })
}

/// User messages come before the ACK.
fn early_users(max: usize) -> impl Strategy<Value = History> {
    (
        strat::setup(),
        any::<bool>(),
        mix(1..max),
        opt_payload(),
        mix(0..8),
        mix(0..8),
        any::<bool>(),
    )
        .prop_map(|(mut setup, first, held, ack, between, tail, forged)| {
            if setup.expected == Expected::Other {
                setup.expected = Expected::Peer;
            }
            let c = Op::Connect(None);
            let pc = Op::Recv(Msg::Connect(None, CV::Genuine));
            let mut ops = if first { vec![c, pc] } else { vec![pc, c] };
            ops.push(Op::Ack(None));
            ops.extend(held);
            if forged {
                ops.push(Op::Recv(Msg::Ack(ack.clone(), AV::BadSig(9))));
            }
            ops.push(Op::Recv(Msg::Ack(ack, AV::Genuine)));
            // in minimal mode, messages and duplicates may come before the held ones are asked for
            ops.extend(between);
            ops.push(Op::Drain);
            ops.push(Op::Drain);
            ops.extend(tail);
            ops.push(Op::Write(Payload::new(9, 1, 1)));
            History { setup, ops }
        })
}

/// Very many user messages, all different, before the ACK: in order, backwards, shuffled, with gaps.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    setup: Setup,
    first: bool,
    count: u32,
    order: u8,
    again: Vec<u16>,
}

fn flood_history(f: &Flood) -> History {
    let c = Op::Connect(None);
    let pc = Op::Recv(Msg::Connect(None, CV::Genuine));
    let mut ops = if f.first { vec![c, pc] } else { vec![pc, c] };
    ops.push(Op::Ack(None));
    let n = f.count as u64;
    let mut numbers: Vec<u64> = (0..n).collect();
    match f.order % 4 {
        0 => {}
        1 => numbers.reverse(),
        2 => {
            let mut s = f.setup.seed;
            for i in (1..numbers.len()).rev() {
                numbers.swap(i, (splitmix(&mut s) % (i as u64 + 1)) as usize);
            }
        }
        _ => numbers.iter_mut().for_each(|k| *k = *k * 3 + 1),
    }
    for k in numbers {
        ops.push(Op::Recv(Msg::User(k, Payload::new((k % 7) as usize, 1, k), UV::Genuine)));
    }
    for a in &f.again {
        ops.push(Op::Recv(Msg::AgainUser(*a)));
    }
    ops.push(Op::Recv(Msg::Ack(None, AV::Genuine)));
    ops.push(Op::Drain);
    ops.push(Op::Drain);
    for a in &f.again {
        ops.push(Op::Recv(Msg::AgainUser(*a)));
    }
    ops.push(Op::Recv(Msg::User(n * 4, Payload::new(3, 1, 1), UV::Genuine)));
    ops.push(Op::Write(Payload::new(9, 1, 1)));
    History { setup: f.setup.clone(), ops }
}

fn flood(f: &Flood, obs: &mut Obs) -> Result<(), String> {
    check(&flood_history(f), obs).map_err(|e| e.chars().take(400).collect())
}

fn floods(max: u32) -> impl Strategy<Value = Flood> {
    (
        strat::setup(),
        any::<bool>(),
        prop_oneof![
            2 => 0u32..100,
            2 => proptest::sample::select(vec![127u32, 255, 511, 1023, 1535]).prop_flat_map(|k| k - 3..k + 5),
            1 => 0..max,
        ],
        any::<u8>(),
        proptest::collection::vec(any::<u16>(), 0..4),
    )
        .prop_map(|(mut setup, first, count, order, again)| {
            if setup.expected == Expected::Other {
                setup.expected = Expected::Peer;
            }
            Flood { setup, first, count, order, again }
        })
}

/// All short words over the operations that matter here, after each legal beginning.
fn words(len: u32) -> Vec<History> {
    let p = |n: u64| Payload::new(6, 1, n);
    let l = vec![
        Op::Recv(Msg::User(0, p(0), UV::Genuine)),
        Op::Recv(Msg::User(1, p(1), UV::Genuine)),
        Op::Recv(Msg::User(2, p(2), UV::Bare)),
        Op::Recv(Msg::Ack(None, AV::Genuine)),
        Op::Drain,
        Op::Take,
        Op::Write(p(9)),
    ];
    let starts: Vec<Vec<Op>> = vec![
        vec![Op::Connect(None), Op::Recv(Msg::Connect(None, CV::Genuine)), Op::Ack(None)],
        vec![
            Op::Connect(None),
            Op::Recv(Msg::Ack(Some(p(5)), AV::Genuine)),
            Op::Recv(Msg::Connect(Some(p(6)), CV::Genuine)),
            Op::Take,
            Op::Ack(None),
        ],
    ];
    let mut out = vec![];
    for k in 0..(l.len() as u64).pow(len) {
        let mut k2 = k;
        let w: Vec<Op> = (0..len)
            .map(|_| {
                let o = l[(k2 % l.len() as u64) as usize].clone();
                k2 /= l.len() as u64;
                o
            })
            .collect();
        for s in &starts {
            for mode in [Mode::Minimal, Mode::Complete] {
                let mut ops = s.clone();
                ops.extend(w.clone());
                out.push(History {
                    setup: Setup { mode, cfg: Cfg::default(), expected: Expected::None, seed: k },
                    ops,
                });
            }
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.each("words", words(ctx.pick(5, 6)), check);
    ctx.prop("early-ack", ctx.pick(18_000, 400_000), early_ack, check);
    ctx.prop("early-users", ctx.pick(14_000, 400_000), || early_users(24), check);
    ctx.prop("many-early-users", ctx.pick(300, 6_000), || early_users(600), check);
    ctx.prop("floods", ctx.pick(300, 4_000), || floods(ctx.pick(2_000, 9_000)), flood);
    ctx.finish(RULE, "exploration", &[])
}
