//! C01: negotiation completes in every legal message order.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::refcrypto::{sha256, Identity};
use crate::sut::{seen, Got, Layer, Mode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The eight steps of a negotiation between A and B.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Step {
    /// A creates its CONNECT.
    CreateConnectA,
    CreateConnectB,
    /// A creates its ACK.
    CreateAckA,
    CreateAckB,
    /// A receives B's CONNECT.
    ConnectToA,
    ConnectToB,
    AckToA,
    AckToB,
    /// A writes a user message, which is on its way until delivered.
    WriteA,
    WriteB,
    /// The oldest user message on its way to A is delivered.
    UserToA,
    UserToB,
}
use Step::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub mode: Mode,
    /// Whether A and B know the other's key beforehand.
    pub expect: (bool, bool),
    pub same_identity: bool,
    pub cfg: (Cfg, Cfg),
    pub data: [Option<Payload>; 4],
    pub order: Vec<Step>,
    pub seed: u64,
    /// Private ephemeral keys to use, when they matter.
    pub keys: Option<(Vec<u8>, Vec<u8>)>,
}

/// All orders of the eight steps that respect: a CONNECT is created before it is delivered, an
/// ACK is created by a side after the peer's CONNECT reached it and before it is delivered, and
/// (what makes the order legal) an ACK reaches a side only after that side sent its CONNECT.
pub fn orders() -> Vec<Vec<Step>> {
    fn go(done: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        const NEEDS: [(Step, &[Step]); 8] = [
            (CreateConnectA, &[]),
            (CreateConnectB, &[]),
            (ConnectToB, &[CreateConnectA]),
            (ConnectToA, &[CreateConnectB]),
            (CreateAckB, &[ConnectToB]),
            (CreateAckA, &[ConnectToA]),
            (AckToA, &[CreateAckB]),
            (AckToB, &[CreateAckA]),
        ];
        if done.len() == 8 {
            out.push(done.clone());
            return;
        }
        for (s, needs) in NEEDS {
            if !done.contains(&s) && needs.iter().all(|n| done.contains(n)) {
                done.push(s);
                go(done, out);
                done.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut out);
    out
}

pub struct Side {
    pub layer: Layer,
    pub id: [u8; 32],
    pub got: Vec<Got>,
    pub want: Vec<Got>,
    pub connect: Option<Vec<u8>>,
    pub ack: Option<Vec<u8>>,
}

pub fn identity_seed(seed: u64, n: u64) -> [u8; 32] {
    sha256(&[&b"c01"[..], &seed.to_be_bytes(), &n.to_be_bytes()].concat())
}

fn other(i: usize) -> usize {
    1 - i
}

/// Runs the order; both sides must report exactly what the other supplied, each thing once.
pub fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let ids = [
        identity_seed(c.seed, 0),
        identity_seed(c.seed, if c.same_identity { 0 } else { 1 }),
    ];
    let pks = [Identity::new(ids[0]).pk().to_vec(), Identity::new(ids[1]).pk().to_vec()];
    let bytes: Vec<Option<Vec<u8>>> =
        c.data.iter().map(|p| p.as_ref().map(|p| p.bytes())).collect();
    let mut sides: Vec<Side> = Vec::new();
    for i in 0..2 {
        let knows = if i == 0 { c.expect.0 } else { c.expect.1 };
        let cfg = if i == 0 { &c.cfg.0 } else { &c.cfg.1 };
        if let Some(k) = &c.keys {
            entropy::push_fixed(if i == 0 { &k.0 } else { &k.1 });
        }
        let layer = Layer::create(c.mode, cfg.get(), ids[i], knows.then(|| pks[other(i)].clone()))
            .map_err(|e| format!("create: {}", e))?;
        sides.push(Side { layer, id: ids[i], got: vec![], want: vec![], connect: None, ack: None });
    }
    // user messages on their way to each side
    let mut flying: [Vec<(Vec<u8>, Vec<u8>)>; 2] = [vec![], vec![]];
    let mut held: [Vec<Got>; 2] = [vec![], vec![]];
    let mut ack_held: [bool; 2] = [false, false];
    let mut acked = [false, false]; // the peer's ACK is in
    let mut count = 0u64;
    for (n, s) in c.order.iter().enumerate() {
        let at = |e: &dyn std::fmt::Display| format!("step {} {:?}: {}", n, s, e);
        match s {
            CreateConnectA | CreateConnectB => {
                let i = usize::from(*s == CreateConnectB);
                let m = sides[i].layer.connect(bytes[i].as_deref()).map_err(|e| at(&e))?;
                sides[i].connect = Some(m);
            }
            CreateAckA | CreateAckB => {
                let i = usize::from(*s == CreateAckB);
                let m = sides[i].layer.ack(bytes[2 + i].as_deref()).map_err(|e| at(&e))?;
                sides[i].ack = Some(m);
            }
            ConnectToA | ConnectToB => {
                let i = usize::from(*s == ConnectToB);
                let m = sides[other(i)].connect.clone().ok_or("bad order")?;
                let g = sides[i].layer.read_all(&m).map_err(|e| at(&e))?;
                let key = pks[other(i)].clone();
                sides[i]
                    .want
                    .push(Got::Connect { key, data: seen(c.mode, bytes[other(i)].as_deref()) });
                if ack_held[i] {
                    ack_held[i] = false;
                    acked[i] = true;
                    sides[i].want.push(Got::Ack { data: seen(c.mode, bytes[2 + other(i)].as_deref()) });
                }
                sides[i].got.extend(g);
            }
            AckToA | AckToB => {
                let i = usize::from(*s == AckToB);
                let m = sides[other(i)].ack.clone().ok_or("bad order")?;
                let knows = if i == 0 { c.expect.0 } else { c.expect.1 };
                let connected = sides[i].want.iter().any(|g| matches!(g, Got::Connect { .. }));
                let g = sides[i].layer.read_all(&m).map_err(|e| at(&e))?;
                if knows || connected {
                    acked[i] = true;
                    sides[i].want.push(Got::Ack { data: seen(c.mode, bytes[2 + other(i)].as_deref()) });
                    let h = std::mem::take(&mut held[i]);
                    sides[i].want.extend(h);
                } else {
                    ack_held[i] = true;
                    obs.label("ack before connect");
                    if !g.is_empty() {
                        return Err(at(&"an ACK was reported before its sender's CONNECT"));
                    }
                }
                sides[i].got.extend(g);
            }
            WriteA | WriteB => {
                let i = usize::from(*s == WriteB);
                // only when this side is negotiated; otherwise not a legal step
                if !(acked[i] && sides[i].ack.is_some()) {
                    continue;
                }
                count += 1;
                let d = Payload::new(1 + (count as usize * 7) % 90, 1, c.seed ^ count).bytes();
                let m = sides[i].layer.write(&d).map_err(|e| at(&e))?;
                flying[other(i)].push((m, d));
            }
            UserToA | UserToB => {
                let i = usize::from(*s == UserToB);
                // a user message may come as soon as this side has sent its ACK
                if sides[i].ack.is_none() || flying[i].is_empty() {
                    continue;
                }
                let (m, d) = flying[i].remove(0);
                let g = sides[i].layer.read_all(&m).map_err(|e| at(&e))?;
                let want = Got::User { data: Some(d) };
                if acked[i] {
                    sides[i].want.push(want);
                } else {
                    obs.label("user message before ack");
                    held[i].push(want);
                    if !g.is_empty() {
                        return Err(at(&"a user message was delivered before the peer's ACK"));
                    }
                }
                sides[i].got.extend(g);
            }
        }
        for (i, side) in sides.iter().enumerate() {
            if side.got != side.want {
                return Err(format!(
                    "after step {} {:?}, side {} reported {:?}, expected {:?}",
                    n,
                    s,
                    if i == 0 { "A" } else { "B" },
                    side.got.iter().map(|g| g.brief()).collect::<Vec<_>>(),
                    side.want.iter().map(|g| g.brief()).collect::<Vec<_>>()
                ));
            }
        }
    }
    // rest of the messages on their way, then a few more in both directions
    for round in 0..3u64 {
        for i in 0..2 {
            let d = Payload::new(round as usize * 700, 3, c.seed ^ round).bytes();
            let m = sides[i]
                .layer
                .write(&d)
                .map_err(|e| format!("after the negotiation, writing: {}", e))?;
            flying[other(i)].push((m, d));
        }
    }
    for i in 0..2 {
        for (m, d) in std::mem::take(&mut flying[i]) {
            let g = sides[i]
                .layer
                .read_all(&m)
                .map_err(|e| format!("after the negotiation, reading: {}", e))?;
            if g != vec![Got::User { data: seen(c.mode, Some(&d)) }] {
                return Err("after the negotiation, a user message was not delivered as written".into());
            }
        }
    }
    obs.nontrivial();
    obs.label(match c.mode {
        Mode::Minimal => "minimal",
        Mode::Complete => "complete",
    });
    Ok(())
}

fn base(mode: Mode, order: Vec<Step>, seed: u64) -> Case {
    Case {
        mode,
        expect: (false, false),
        same_identity: false,
        cfg: (Cfg::default(), Cfg::default()),
        data: [None, None, None, None],
        order,
        seed,
        keys: None,
    }
}

/// Orders in which a side that is done first writes at once, and the other side receives it before
/// the ACK.
fn order_with_early_users() -> impl Strategy<Value = Vec<Step>> {
    (proptest::sample::select(orders()), 1usize..6, any::<u16>()).prop_map(|(mut o, n, at)| {
        // the side whose ACK arrives last receives early messages
        let last = o.iter().rposition(|s| matches!(s, AckToA | AckToB)).unwrap();
        let (w, u) = if o[last] == AckToA { (WriteB, UserToA) } else { (WriteA, UserToB) };
        for k in 0..n {
            o.insert(last, if (at >> k) & 1 == 0 { u } else { w });
            o.insert(last, w);
        }
        o
    })
}

/// Orders with user messages written and delivered at every possible point.
fn order_with_users() -> impl Strategy<Value = Vec<Step>> {
    (
        proptest::sample::select(orders()),
        proptest::collection::vec(
            (any::<u16>(), proptest::sample::select(vec![WriteA, WriteB, UserToA, UserToB])),
            0..14,
        ),
    )
        .prop_map(|(mut o, extra)| {
            for (at, s) in extra {
                let i = at as usize % (o.len() + 1);
                o.insert(i, s);
            }
            o
        })
}

pub fn case() -> impl Strategy<Value = Case> {
    (
        any_mode(),
        (any::<bool>(), any::<bool>()),
        prop_oneof![9 => Just(false), 1 => Just(true)],
        (any_cfg(), any_cfg()),
        [opt_payload(), opt_payload(), opt_payload(), opt_payload()],
        prop_oneof![order_with_users(), order_with_early_users()],
        0u64..1_000_000_000,
    )
        .prop_map(|(mode, expect, same_identity, cfg, data, order, seed)| Case {
            mode,
            expect,
            same_identity,
            cfg,
            data,
            order,
            seed,
            keys: None,
        })
}

pub const RULE: &str = "enumerated: all 70 orders of the eight negotiation steps x 2 modes x 4 choices of expected keys \
 x 5 choices of custom data, and custom data of up to 1,000,000 bytes in each of the four messages; generated: random order with user messages written and delivered in between, random custom \
 data, configurations, identities and ephemeral keys, and 96 pairs of ephemeral keys whose public keys share 1 to 6 leading or trailing bytes. \
 Non-trivial: both sides negotiated and exchanged user messages in both directions.";

pub fn run(ctx: &Ctx) -> i32 {
    let mut all = vec![];
    for (k, order) in orders().into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            for e in 0..4 {
                for d in 0..5u64 {
                    let mut c = base(mode, order.clone(), (k as u64) << 8 | d);
                    c.expect = (e & 1 == 1, e & 2 == 2);
                    c.data = match d {
                        0 => [None, None, None, None],
                        1 => [0, 1, 2, 3].map(|i| Some(Payload::new(10 + i, 1, i as u64))),
                        2 => [0, 1, 2, 3].map(|_| Some(Payload::new(0, 0, 0))),
                        3 => [Some(Payload::new(9000, 3, 1)), None, Some(Payload::new(9000, 1, 2)), None],
                        _ => [None, Some(Payload::new(1, 0, 0)), None, Some(Payload::new(70_000, 1, 3))],
                    };
                    all.push(c);
                }
            }
        }
    }
    ctx.each("every-order", all, run_case);
    // custom data of every size class in every order
    let mut large = vec![];
    let sizes = [65_519usize, 65_520, 65_534, 65_535, 65_536, 65_537, 100_000, 131_072, 200_000, 1_000_000];
    for (k, order) in orders().into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            for which in 0..4usize {
                let mut c = base(mode, order.clone(), (k * 8 + which) as u64);
                let n = sizes[(k + which * 3) % sizes.len()];
                c.data[which] = Some(Payload::new(n, (k % 4) as u8, k as u64));
                if k % 5 == 0 {
                    c.data[3 - which] = Some(Payload::new(sizes[k / 5 % sizes.len()], 1, k as u64));
                }
                let cfg = Cfg { level: (k % 10) as u32, min_size: [0, 8192, 100_000, 4_000_000][k % 4], format: 0 };
                c.cfg = if which % 2 == 0 { (cfg, Cfg::default()) } else { (Cfg::default(), cfg) };
                large.push(c);
            }
        }
    }
    ctx.each("large-data", large, run_case);
    // and of the sizes that stand in the source
    let mut sized = vec![];
    for (i, n) in crate::dict::data_sizes(100_000).into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            for (k, order) in orders().into_iter().enumerate() {
                // small ones in a fourth of the orders each
                if n < 300 && (k + i) % 4 != 0 {
                    continue;
                }
                let mut c = base(mode, order, (i * 1000 + k) as u64);
                c.data = [0, 1, 2, 3].map(|w| Some(Payload::new(n, [1, 3, 11][(w + k) % 3], k as u64)));
                c.expect = (k % 3 == 1, k % 5 == 1);
                c.cfg.0.min_size = [8192, 0, usize::MAX][k % 3];
                sized.push(c);
            }
        }
    }
    ctx.each("sizes-in-the-source", sized, run_case);
    let mut keyed = vec![];
    for (k, (a, b)) in crate::keypairs::all().into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            let o = orders();
            let mut c = base(mode, o[k * 7 % o.len()].clone(), k as u64);
            c.keys = Some((a.to_vec(), b.to_vec()));
            keyed.push(c);
        }
    }
    ctx.each("near-equal-keys", keyed, run_case);
    ctx.prop("random", ctx.pick(60_000, 1_500_000), case, run_case);
    ctx.finish(RULE, "exploration", &[])
}
