//! C10: harmless rejections leave the session untouched.
//!
//! Metamorphic: the same history is run twice with the same entropy, once with events in between
//! that have to be refused without effect. Every other step must give the same answer, and the
//! layer must emit the same bytes.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::hist::{strat, *};
use crate::sut::{Got, Mode, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "a history (orderly negotiation with noise, then user messages, clones, configuration changes) is run twice \
 with the same entropy, once with 1 to 8 further events inserted that the reference machine calls harmless at that point; \
 all other steps must answer the same and all emitted bytes must be the same. Non-trivial: at least one harmless event was \
 really inserted, and at least three other steps followed. In the parts repeated and floods each event comes 10 to 65,540 times.";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    history: History,
    insert: Vec<(u16, Op)>,
    /// How often each of them comes (0 and 1: once).
    #[serde(default)]
    times: u32,
}

struct Seen {
    answers: Vec<Option<R<Vec<Got>>>>,
    outbox: Vec<Vec<u8>>,
}

fn go(c: &Case, with: bool, obs: &mut Obs) -> Result<Option<Seen>, String> {
    let h = &c.history;
    let mut w = World::new(&h.setup)?;
    let mut answers = vec![];
    let mut inserted = false;
    for i in 0..=h.ops.len() {
        if with {
            for (at, op) in &c.insert {
                if *at as usize % (h.ops.len() + 1) != i {
                    continue;
                }
                let Some((Allow::Harmless, bytes)) = w.peek(op) else { continue };
                if w.model.failed {
                    continue;
                }
                for n in 0..c.times.max(1) {
                    let got = match (op, &bytes) {
                        (Op::Recv(_), Some(b)) => w.layer.read(b),
                        (op, _) => {
                            let before = w.outbox.len();
                            let r = w.step(op).map_or(Ok(vec![]), |x| x.1);
                            w.outbox.truncate(before);
                            r
                        }
                    };
                    if got.is_ok() {
                        // accepted: another property's matter
                        return Ok(None);
                    }
                    if n == 9 && obs.extra == 0 {
                        obs.label("a flood");
                    }
                    obs.extra += 1;
                }
                obs.label(&format!("inserted {}", name(op)));
                inserted = true;
                if h.ops.len() - i >= 3 {
                    obs.nontrivial();
                }
            }
        }
        if let Some(op) = h.ops.get(i) {
            answers.push(w.step(op).map(|x| x.1));
        }
    }
    if with && !inserted {
        return Ok(None);
    }
    Ok(Some(Seen { answers, outbox: w.outbox }))
}

fn name(op: &Op) -> String {
    match op {
        Op::Recv(Msg::Connect(_, v)) => format!("connect {:?}", v),
        Op::Recv(Msg::Ack(_, v)) => format!("ack {:?}", v),
        Op::Recv(Msg::User(_, _, v)) => format!("user {:?}", v),
        Op::Recv(m) => format!("{:?}", m),
        op => format!("{:?}", op),
    }
    .split('(')
    .next()
    .unwrap()
    .to_string()
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let Some(a) = go(c, true, obs)? else { return Ok(()) };
    let b = go(c, false, &mut Obs::default())?.expect("reference run");
    for (i, (x, y)) in a.answers.iter().zip(&b.answers).enumerate() {
        if x != y {
            let show = |r: &Option<R<Vec<Got>>>| match r {
                None => "nothing".to_string(),
                Some(Ok(v)) => format!("[{}]", v.iter().map(|g| g.brief()).collect::<Vec<_>>().join(", ")),
                Some(Err(e)) => e.to_string(),
            };
            return Err(format!(
                "step {} {:?}: {} after the refused events, {} without them",
                i,
                c.history.ops[i],
                show(x),
                show(y)
            ));
        }
    }
    if a.outbox != b.outbox {
        return Err("the layer emitted other bytes after the refused events".into());
    }
    Ok(())
}

fn harmless_op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => (opt_payload(), any::<u8>()).prop_map(|(p, i)| Op::Recv(Msg::Connect(p, CV::BadSig(i)))),
        2 => (opt_payload(), any::<u8>()).prop_map(|(p, i)| Op::Recv(Msg::Connect(p, CV::BadBody(i)))),
        2 => opt_payload().prop_map(|p| Op::Recv(Msg::Connect(p, CV::Forged))),
        3 => opt_payload().prop_map(|p| Op::Recv(Msg::Connect(p, CV::AttackerBadSig))),
        2 => opt_payload().prop_map(|p| Op::Recv(Msg::Connect(p, CV::Attacker))),
        2 => (opt_payload(), any::<u8>()).prop_map(|(p, i)| Op::Recv(Msg::Ack(p, AV::BadSig(i)))),
        2 => opt_payload().prop_map(|p| Op::Recv(Msg::Ack(p, AV::Forged))),
        3 => (opt_payload(), any::<u8>()).prop_map(|(p, i)| Op::Recv(Msg::Ack(p, AV::BadChallenge(i)))),
        1 => any::<u8>().prop_map(|i| Op::Recv(Msg::Own(i))),
        3 => any::<u8>().prop_map(|i| Op::Recv(Msg::Again(i))),
        3 => (strat::nonce(), small_payload()).prop_map(|(n, p)| Op::Recv(Msg::User(n, p, UV::Genuine))),
        2 => opt_payload().prop_map(Op::Connect),
        2 => opt_payload().prop_map(Op::Ack),
        2 => Just(Op::Clone),
        2 => (0u8..3).prop_map(Op::TypedRaw),
        1 => any_cfg().prop_map(|mut c| { c.format %= 2; Op::Config(c) }),
    ]
}

fn ops() -> impl Strategy<Value = Vec<Op>> {
    (
        strat::prefix(),
        proptest::collection::vec(
            prop_oneof![
                6 => (strat::nonce(), small_payload()).prop_map(|(n, p)| Op::Recv(Msg::User(n, p, UV::Genuine))),
                4 => small_payload().prop_map(Op::Write),
                1 => Just(Op::Clone),
                1 => Just(Op::Drain),
                1 => Just(Op::Take),
                1 => any_cfg().prop_map(|mut c| { c.format %= 2; Op::Config(c) }),
                1 => strat::op(),
            ],
            0..14,
        ),
        proptest::collection::vec((any::<u16>(), strat::good_msg().prop_map(Op::Recv)), 0..3),
    )
        .prop_map(|(mut ops, tail, noise)| {
            for (at, op) in noise {
                let i = at as usize % (ops.len() + 1);
                ops.insert(i, op);
            }
            ops.extend(tail);
            ops
        })
}

/// Every harmless event, many times, at every place of a session that uses everything.
fn repeated(ctx: &Ctx) -> Vec<Case> {
    let p = || Payload::new(20, 1, 3);
    let user = |n| Op::Recv(Msg::User(n, p(), UV::Genuine));
    let session = vec![
        Op::Connect(None),
        Op::Recv(Msg::Connect(Some(p()), CV::Genuine)),
        Op::Ack(None),
        user(0),
        user(2),
        Op::Recv(Msg::Ack(None, AV::Genuine)),
        Op::Drain,
        user(1),
        Op::Write(p()),
        user(4),
        Op::Clone,
        Op::Write(p()),
        user(3),
        user(5),
        Op::Connect(None),
        Op::Ack(None),
    ];
    let events = vec![
        Op::Recv(Msg::Connect(None, CV::BadSig(3))),
        Op::Recv(Msg::Connect(None, CV::Forged)),
        Op::Recv(Msg::Connect(Some(p()), CV::AttackerBadSig)),
        Op::Recv(Msg::Connect(None, CV::Attacker)),
        Op::Recv(Msg::Ack(None, AV::BadSig(0))),
        Op::Recv(Msg::Ack(Some(p()), AV::Forged)),
        Op::Recv(Msg::Ack(None, AV::BadChallenge(1))),
        user(0),
        user(2),
        user(4),
        Op::Connect(None),
        Op::Ack(Some(p())),
        Op::Clone,
        Op::TypedRaw(0),
        Op::TypedRaw(1),
        Op::TypedRaw(2),
        Op::Config(Cfg { level: 9, min_size: 0, format: 1 }),
    ];
    let mut out = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for expected in [Expected::None, Expected::Peer] {
            for (k, op) in events.iter().enumerate() {
                for at in 0..=session.len() {
                    // some of them often enough for any counter of two bytes
                    let times = match (at, k) {
                        (9, 7..) | (12, 10..) if expected == Expected::None => 65_540,
                        _ => ctx.pick(300, 1_100),
                    };
                    out.push(Case {
                        history: History { setup: Setup { mode, cfg: Cfg::default(), expected, seed: 5 }, ops: session.clone() },
                        insert: vec![(at as u16, op.clone())],
                        times,
                    });
                }
            }
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.each("repeated", repeated(ctx), check);
    ctx.prop(
        "with-and-without",
        ctx.pick(24_000, 700_000),
        || {
            (strat::setup(), ops(), proptest::collection::vec((any::<u16>(), harmless_op()), 1..9))
                .prop_map(|(setup, ops, insert)| Case { history: History { setup, ops }, insert, times: 1 })
        },
        check,
    );
    ctx.prop(
        "floods",
        ctx.pick(250, 12_000),
        || {
            (
                strat::setup(),
                ops(),
                proptest::collection::vec((any::<u16>(), harmless_op()), 1..3),
                prop_oneof![12 => 10u32..300, 6 => Just(1_030u32)],
            )
                .prop_map(|(setup, ops, insert, times)| Case { history: History { setup, ops }, insert, times })
        },
        check,
    );
    ctx.finish(RULE, "exploration", &["answers are a function of the history and the entropy drawn"])
}
