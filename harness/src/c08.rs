//! C08: a failed connection stays failed.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::hist::{self, strat, *};
use crate::sut::Mode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "histories of one layer against a model peer: an orderly beginning (any prefix of any legal negotiation \
 order), a cause of failure, then every kind of call and well-formed messages; compared step by step with a reference \
 state machine, of which only the steps after a failure count here. Non-trivial: the layer had failed and at least three \
 further operations were tried on it.";

fn check(h: &History, obs: &mut Obs) -> Result<(), String> {
    let (t, m) = hist::run(h)?;
    if t.after_fail >= 3 {
        obs.nontrivial();
    }
    if let Some(i) = t.fatal_at {
        obs.label(&format!("failed by {}", cause(&h.ops[i])));
    }
    match m {
        Some(m) if m.kind == Kind::AfterFail => Err(m.what),
        _ => Ok(()),
    }
}

fn cause(op: &Op) -> String {
    let s = format!("{:?}", op);
    match op {
        Op::Recv(Msg::Connect(_, v)) => format!("connect {:?}", v),
        Op::Recv(Msg::Ack(_, v)) => format!("ack {:?}", v),
        Op::Recv(Msg::User(_, _, v)) => format!("user {:?}", v),
        _ => s,
    }
    .split('(')
    .next()
    .unwrap()
    .to_string()
}

fn fatal_op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => strat::garbage().prop_map(|g| Op::Recv(Msg::Garbage(g))),
        2 => small_payload().prop_map(Op::Write),
        1 => Just(Op::Recv(Msg::Connect(None, CV::SigAlgo))),
        1 => (0u8..2).prop_map(|k| Op::Recv(Msg::Connect(None, CV::LowOrder(k)))),
        1 => Just(Op::Recv(Msg::Connect(None, CV::OwnEpk))),
        1 => Just(Op::Recv(Msg::Connect(None, CV::Genuine))),
        1 => Just(Op::Recv(Msg::Connect(None, CV::OtherEpk))),
        1 => opt_payload().prop_map(|p| Op::Recv(Msg::Ack(p, AV::Genuine))),
        1 => any::<u16>().prop_map(|i| Op::Recv(Msg::User(0, Payload::new(9, 1, 1), UV::Tampered(i)))),
        1 => Just(Op::Recv(Msg::User(0, Payload::new(9, 1, 1), UV::Clear))),
        1 => Just(Op::Recv(Msg::User(0, Payload::new(9, 1, 1), UV::WrongKey))),
        1 => Just(Op::Recv(Msg::User(0, Payload::new(9, 1, 1), UV::Genuine))),
    ]
}

fn probe_op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => opt_payload().prop_map(Op::Connect),
        3 => opt_payload().prop_map(Op::Ack),
        3 => small_payload().prop_map(Op::Write),
        2 => Just(Op::Clone),
        1 => Just(Op::Take),
        1 => Just(Op::Drain),
        1 => Just(Op::Config(Cfg::default())),
        8 => strat::good_msg().prop_map(Op::Recv),
        4 => strat::op(),
    ]
}

fn directed() -> impl Strategy<Value = History> {
    (
        strat::setup(),
        strat::prefix(),
        proptest::collection::vec((0u64..6, small_payload()), 0..4),
        proptest::collection::vec(fatal_op(), 1..3),
        any::<bool>(),
        proptest::collection::vec(probe_op(), 3..16),
    )
        .prop_map(|(setup, mut ops, users, fatal, orderly, probes)| {
            ops.extend(
                users.into_iter().map(|(n, p)| Op::Recv(Msg::User(n, p, UV::Genuine))),
            );
            ops.extend(fatal);
            if orderly {
                // the rest of a correct session
                ops.push(Op::Connect(None));
                ops.push(Op::Recv(Msg::Connect(None, CV::Genuine)));
                ops.push(Op::Ack(None));
                ops.push(Op::Recv(Msg::Ack(None, AV::Genuine)));
                ops.push(Op::Take);
                ops.push(Op::Drain);
                for n in 0..4 {
                    ops.push(Op::Recv(Msg::User(n, Payload::new(5, 1, n), UV::Genuine)));
                }
                ops.push(Op::Write(Payload::new(4, 1, 1)));
                ops.push(Op::Clone);
            }
            ops.extend(probes);
            History { setup, ops }
        })
}

/// A sink that fails while a user message is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SinkCase {
    mode: Mode,
    before: u8,
    data: Payload,
    capacity: usize,
    fail_at: usize,
    kind: u8,
    seed: u64,
    probes: Vec<Op>,
}

fn sink_check(c: &SinkCase, obs: &mut Obs) -> Result<(), String> {
    let setup = Setup { mode: c.mode, cfg: Cfg::default(), expected: Expected::Peer, seed: c.seed };
    let mut w = World::new(&setup)?;
    for op in negotiate() {
        w.step(&op);
    }
    for i in 0..c.before {
        w.step(&Op::Write(Payload::new(i as usize * 3, 1, 7)));
        w.step(&Op::Recv(Msg::User(i as u64, Payload::new(5, 1, i as u64), UV::Genuine)));
    }
    let sink = crate::sink::Sink::failing(c.fail_at, c.kind);
    let mut bw = std::io::BufWriter::with_capacity(c.capacity, sink);
    let d = c.data.bytes();
    let r = match &mut w.layer {
        crate::sut::Layer::Min(l, _) => crate::sut::catch(|| l.write_message(&d, &mut bw)),
        crate::sut::Layer::Full(l) => crate::sut::catch(|| l.write_bin(&d, &mut bw)),
    };
    std::mem::forget(bw);
    if r.is_ok() {
        // the failure did not show during the write (all of it fitted in the buffer)
        obs.label("no error during the write");
        return Ok(());
    }
    obs.label("error during the write");
    obs.nontrivial();
    w.model.failed = true;
    for (i, op) in c.probes.iter().enumerate() {
        if let Some((allow, got)) = w.step(op) {
            if let Some((Kind::AfterFail, what)) = compare(&allow, &got) {
                return Err(format!("after a failed write, probe {} {:?}: {}", i, op, what));
            }
        }
    }
    Ok(())
}

pub fn negotiate() -> Vec<Op> {
    vec![
        Op::Connect(None),
        Op::Recv(Msg::Connect(None, CV::Genuine)),
        Op::Ack(None),
        Op::Recv(Msg::Ack(None, AV::Genuine)),
    ]
}

/// Too many unordered messages.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FloodCase {
    mode: Mode,
    first: u64,
    seed: u64,
    probes: Vec<Op>,
}

fn flood_check(c: &FloodCase, obs: &mut Obs) -> Result<(), String> {
    let setup = Setup { mode: c.mode, cfg: Cfg::default(), expected: Expected::Peer, seed: c.seed };
    let mut w = World::new(&setup)?;
    for op in negotiate() {
        w.step(&op);
    }
    let p = Payload::new(3, 1, 1);
    for i in 0..MAX_ORPHANS as u64 + 1 {
        let (allow, got) = w
            .step(&Op::Recv(Msg::User(c.first + i, p.clone(), UV::Genuine)))
            .ok_or("harness: no step")?;
        obs.extra += 1;
        if compare(&allow, &got).is_some() {
            // where the limit lies is C06's matter
            return Ok(());
        }
    }
    obs.nontrivial();
    for (i, op) in c.probes.iter().enumerate() {
        if let Some((allow, got)) = w.step(op) {
            if let Some((Kind::AfterFail, what)) = compare(&allow, &got) {
                return Err(format!("after too many unordered messages, probe {} {:?}: {}", i, op, what));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.prop("directed", ctx.pick(24_000, 600_000), directed, check);
    ctx.prop("any-history", ctx.pick(16_000, 400_000), || strat::history(40), check);
    ctx.prop(
        "sink-error",
        ctx.pick(4_000, 60_000),
        || {
            (
                any_mode(),
                0u8..4,
                any_payload(20_000),
                prop_oneof![Just(0usize), 1usize..64, Just(8192usize), 0usize..9000],
                prop_oneof![2 => 0usize..200, 1 => 0usize..20_000],
                0u8..crate::sink::KINDS,
                any::<u64>(),
                proptest::collection::vec(probe_op(), 3..14),
            )
                .prop_map(|(mode, before, data, capacity, fail_at, kind, seed, probes)| SinkCase {
                    mode,
                    before,
                    data,
                    capacity,
                    fail_at,
                    kind,
                    seed,
                    probes,
                })
        },
        sink_check,
    );
    ctx.prop(
        "flood",
        ctx.pick(16, 200),
        || {
            (
                any_mode(),
                1u64..4,
                any::<u64>(),
                proptest::collection::vec(probe_op(), 5..20),
            )
                .prop_map(|(mode, first, seed, mut probes)| {
                    probes.insert(0, Op::Recv(Msg::User(0, Payload::new(4, 1, 1), UV::Genuine)));
                    probes.insert(0, Op::Write(Payload::new(4, 1, 1)));
                    probes.insert(1, Op::Clone);
                    FloodCase { mode, first, seed, probes }
                })
        },
        flood_check,
    );
    ctx.finish(RULE, "exploration", &[])
}
