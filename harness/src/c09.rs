//! C09: no user data before the negotiation is complete.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::hist::{self, strat, *};
use crate::sut::{Got, Mode};
use proptest::prelude::*;

const RULE: &str = "histories of calls and messages (correct, forged, altered, replayed, out of place) compared step by step \
 with a reference state machine; exhaustively all words of length up to 5 (6 thorough) over 10 operations, and random \
 histories. A step counts here when the layer accepts or delivers what the machine does not allow before (or, for \
 CONNECT and ACK, after) the negotiation. Non-trivial: the history has at least one refused call or message and two accepted ones.";

fn check(h: &History, obs: &mut Obs) -> Result<(), String> {
    let (t, m) = hist::run(h)?;
    if (t.harmless > 0 || t.fatal_at.is_some()) && t.steps >= 3 {
        obs.nontrivial();
    }
    if t.nego {
        obs.label("negotiated");
    }
    if t.held > 0 {
        obs.label("held user messages");
    }
    let Some(m) = m else { return Ok(()) };
    let mine = match (&m.kind, &m.op) {
        (Kind::WrongAccept, Op::Connect(_) | Op::Ack(_) | Op::Write(_) | Op::Clone) => true,
        (Kind::WrongAccept, Op::Recv(Msg::Connect(..) | Msg::Ack(..))) => true,
        (Kind::WrongAccept, Op::Recv(_)) => !m.nego_before,
        // something was delivered although nothing (or less) is due yet
        (Kind::WrongData, Op::Recv(_) | Op::Drain | Op::Take) => {
            let due = |a: &Allow| match a {
                Allow::Ok(v) => v.iter().filter(|g| matches!(g, Got::User { .. })).count(),
                _ => 0,
            };
            !m.nego_before && due(&m.allow) == 0 && m.what.contains("delivered [User")
        }
        _ => false,
    };
    if mine {
        Err(m.what)
    } else {
        Ok(())
    }
}

fn letters() -> Vec<Op> {
    let p = |n: u64| Payload::new(6, 1, n);
    vec![
        Op::Connect(None),
        Op::Recv(Msg::Connect(None, CV::Genuine)),
        Op::Ack(None),
        Op::Recv(Msg::Ack(None, AV::Genuine)),
        Op::Recv(Msg::User(0, p(0), UV::Genuine)),
        Op::Recv(Msg::User(1, p(1), UV::Genuine)),
        Op::Write(p(2)),
        Op::Clone,
        Op::Take,
        Op::Drain,
    ]
}

pub fn run(ctx: &Ctx) -> i32 {
    // every word over the letters, shortest first
    let mut words = vec![];
    let l = letters();
    let max = ctx.pick(5u32, 6);
    for len in 1..=max {
        for k in 0..(l.len() as u64).pow(len) {
            let mut k2 = k;
            let ops: Vec<Op> = (0..len)
                .map(|_| {
                    let o = l[(k2 % l.len() as u64) as usize].clone();
                    k2 /= l.len() as u64;
                    o
                })
                .collect();
            for mode in [Mode::Minimal, Mode::Complete] {
                // with and without expected key in turn
                let expected = if k % 2 == 0 { Expected::None } else { Expected::Peer };
                if len == max && (k % 2 == 0) == (mode == Mode::Minimal) {
                    continue;
                }
                words.push(History {
                    setup: Setup { mode, cfg: Cfg::default(), expected, seed: k },
                    ops: ops.clone(),
                });
            }
        }
    }
    ctx.each("words", words, check);
    ctx.prop("any-history", ctx.pick(30_000, 900_000), || strat::history(25), check);
    ctx.prop(
        "shuffled",
        ctx.pick(20_000, 400_000),
        || {
            (strat::setup(), proptest::collection::vec(
                prop_oneof![
                    4 => proptest::sample::select(letters()),
                    2 => strat::good_msg().prop_map(Op::Recv),
                    1 => strat::op(),
                ],
                3..20,
            ))
                .prop_map(|(setup, ops)| History { setup, ops })
        },
        check,
    );
    ctx.finish(RULE, "exploration", &[])
}
