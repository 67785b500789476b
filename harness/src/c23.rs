//! C23: builds with different features do the same.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::proto::{Ans, Conf, Data, Got, Item, Kind, Op, Runner, Script};
use crate::refcrypto::Identity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{self, Receiver};
use std::time::Duration;

const RULE: &str = "generated sessions of two layers whose builds have any two of ten sets of pkstl's features; the session runs in \
 the build with all features, then what each layer was told is told to programs with each set of features that includes its own, \
 with the same entropy: every answer and every emitted byte must be the same, except that a typed message in a format that the \
 reader was built without must be refused with an error; sessions in which up to 10,002 messages arrive out of order or early. Non-trivial: user messages were delivered in both directions and one of \
 the layers ran in a build with fewer features.";

const SETS: [&str; 10] =
    ["none", "zip", "ser", "bin", "cbor", "json", "bin,cbor", "bin,json", "cbor,json", "bin,cbor,json"];

/// The formats (as in `Conf`) that a build knows for typed messages.
fn typed(set: &str) -> Vec<u8> {
    [("json", 2), ("cbor", 3), ("bin", 4)].into_iter().filter(|(f, _)| set.split(',').any(|s| s == *f)).map(|x| x.1).collect()
}

fn has_zip(set: &str) -> bool {
    set != "none"
}

fn has_ser(set: &str) -> bool {
    set != "none" && set != "zip"
}

/// Whether a build with `b` has all that one with `a` has.
fn includes(b: &str, a: &str) -> bool {
    match a {
        "none" => true,
        "zip" => has_zip(b),
        "ser" => has_ser(b),
        _ => a.split(',').all(|f| b.split(',').any(|g| f == g)),
    }
}

struct Build {
    child: Child,
    stdin: Option<ChildStdin>,
    lines: Receiver<String>,
}

impl Drop for Build {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Build {
    fn start(file: &std::path::Path) -> Option<Build> {
        let mut child =
            Command::new(file).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let stdin = child.stdin.take();
        let out = BufReader::new(child.stdout.take()?);
        let (tx, lines) = mpsc::channel();
        std::thread::spawn(move || {
            for l in out.lines().map_while(Result::ok) {
                if let Some(l) = l.strip_prefix('@') {
                    if tx.send(l.to_string()).is_err() {
                        return;
                    }
                }
            }
        });
        Some(Build { child, stdin, lines })
    }
    fn ask(&mut self, s: &str) -> Result<Vec<Ans>, String> {
        let w = self.stdin.as_mut().ok_or("closed")?;
        writeln!(w, "{}", s).and_then(|_| w.flush()).map_err(|e| e.to_string())?;
        // the patience of this check is real
        crate::clock::off();
        match self.lines.recv_timeout(Duration::from_secs(120)) {
            Ok(l) => serde_json::from_str(&l).map_err(|e| format!("{} in {:?}", e, l)),
            Err(e) => Err(e.to_string()),
        }
    }
}

thread_local! {
    static BUILDS: RefCell<HashMap<usize, Build>> = RefCell::new(HashMap::new());
}

struct Bins {
    dir: std::path::PathBuf,
}

impl Bins {
    fn failure(&self, set: &str) -> Option<String> {
        std::fs::read_to_string(self.dir.join(format!("{}.err", set))).ok()
    }
    fn there(&self, set: &str) -> bool {
        self.dir.join(set).is_file()
    }
    /// What the build answers, or how it fails to. None: no program to ask.
    fn ask(&self, set: usize, script: &str) -> Option<Result<Vec<Ans>, String>> {
        BUILDS.with(|m| {
            let mut m = m.borrow_mut();
            if !m.contains_key(&set) {
                m.insert(set, Build::start(&self.dir.join(SETS[set]))?);
            }
            let r = m.get_mut(&set)?.ask(script);
            if r.is_err() {
                // it died (or hangs): alone, is it the case?
                m.remove(&set);
                let mut b = Build::start(&self.dir.join(SETS[set]))?;
                return Some(b.ask(script));
            }
            Some(r)
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Side {
    /// Index into `SETS`.
    build: u8,
    conf: Option<Conf>,
    id: Option<u64>,
    expect: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// What comes next in an ordinary session; typed or not, if there is a choice.
    Next(bool, Payload),
    Connect(bool, Option<Payload>),
    Ack(bool, Option<Payload>),
    Write(bool, Payload),
    /// The k-th message of the other side (from the end), perhaps altered.
    Deliver { k: u8, typed: bool, flip: Option<u16> },
    /// A payload that begins like a typed message of a format.
    Headed { format: u8, text: String },
    Take,
    Drain,
    Config(Conf),
    Clone,
    Seed,
    Debug,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    complete: bool,
    sides: [Side; 2],
    plan: Vec<(bool, Act)>,
    /// The plan may be softened, see `session`.
    loose: bool,
    seed: u64,
}

fn item(n: u32, p: &Payload) -> Item {
    let b = p.bytes();
    let short = &b[..b.len().min(40)];
    Item {
        n,
        text: String::from_utf8_lossy(short).into_owned(),
        opt: (p.seed % 3 == 0).then(|| {
            Box::new(Item {
                n: n ^ 1,
                text: "inner \"é\"\n".into(),
                bytes: vec![],
                opt: None,
                list: vec![],
                kind: Kind::Unit,
            })
        }),
        list: short.iter().map(|x| *x as i32 * 70_000 - 9_000_000).collect(),
        kind: match p.seed % 5 {
            0 => Kind::Unit,
            1 => Kind::Number(i64::MIN + p.seed as i64),
            2 => Kind::Pair(p.len as u16, p.seed % 2 == 0),
            _ => Kind::Named { text: format!("{}", p.seed) },
        },
        bytes: b,
    }
}

/// The session in the full build: what each side was told, what it answered, and the formats of
/// the typed messages.
struct Run {
    scripts: [Script; 2],
    answers: [Vec<Ans>; 2],
    formats: HashMap<u32, u8>,
    users: [usize; 2],
}

fn fit(conf: &Conf, set: &str) -> Conf {
    // a format that this build has
    let mut all = vec![0, 1];
    all.extend(typed(set));
    // (without `ser` there is none to choose)
    let f = if !all.contains(&conf.format) { all[conf.format as usize % all.len()] } else { conf.format };
    Conf { format: f, ..conf.clone() }
}

fn session(c: &Case) -> Run {
    let sets = [SETS[c.sides[0].build as usize % 10], SETS[c.sides[1].build as usize % 10]];
    let ids: Vec<Option<Identity>> = c.sides.iter().map(|s| s.id.map(Identity::of)).collect();
    let mk = |k: usize| {
        let s = &c.sides[k];
        Script {
            complete: c.complete,
            conf: s.conf.as_ref().map(|x| fit(x, sets[k])),
            id: ids[k].as_ref().map(|i| i.seed).or(if c.complete { None } else { Some([k as u8 + 1; 32]) }),
            expected: if s.expect { ids[1 - k].as_ref().map(|i| i.pk().to_vec()) } else { None },
            salt: c.seed ^ (k as u64) << 50,
            ops: vec![],
        }
    };
    let mut scripts = [mk(0), mk(1)];
    let (ra, aa) = Runner::create(&scripts[0]);
    let (rb, ab) = Runner::create(&scripts[1]);
    let mut runners = [ra, rb];
    let mut answers = [vec![aa], vec![ab]];
    let mut formats = HashMap::new();
    let mut format_now = [0u8; 2];
    for k in 0..2 {
        format_now[k] = scripts[k].conf.as_ref().map_or(0, |c| c.format);
    }
    let mut out: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut read: [Vec<usize>; 2] = [vec![], vec![]];
    let (mut connected, mut acked) = ([false; 2], [false; 2]);
    let mut n = 0u32;
    for (side, act) in &c.plan {
        let k = *side as usize;
        let can_type = c.complete && has_ser(sets[k]);
        // during the negotiation, most of what would end it gives way to what comes next
        n += 2;
        let fresh = (0..out[1 - k].len()).find(|i| !read[k].contains(i));
        let ready = acked[k] && read[k].len() > 1;
        let filler = Payload::new(n as usize, 3, n as u64);
        let act = match act {
            Act::Connect(..) | Act::Ack(..) | Act::Write(..) | Act::Headed { .. } | Act::Clone | Act::Deliver { .. }
                if (!ready || matches!(act, Act::Connect(..) | Act::Ack(..))) && (c.seed as u32 ^ n / 2) % 16 != 0 && c.loose =>
            {
                &Act::Next(n % 4 == 0, filler)
            }
            a => a,
        };
        // what comes next
        let act = match act {
            Act::Next(t, p) => {
                if !connected[k] {
                    Act::Connect(*t, Some(p.clone()))
                } else if let Some(i) = fresh {
                    Act::Deliver { k: (out[1 - k].len() - 1 - i).min(255) as u8, typed: *t, flip: None }
                } else if !acked[k] && !read[k].is_empty() {
                    Act::Ack(*t, Some(p.clone()))
                } else if ready {
                    Act::Write(*t, p.clone())
                } else {
                    continue;
                }
            }
            a => a.clone(),
        };
        let typed_value = |t: bool, p: &Payload, formats: &mut HashMap<u32, u8>| {
            (t && can_type && (format_now[k] > 1 || n % 16 == 0)).then(|| {
                formats.insert(n, format_now[k]);
                item(n, p)
            })
        };
        let op = match &act {
            Act::Connect(t, p) => {
                connected[k] = true;
                match p {
                    None if *t && can_type => Op::ConnectT(None),
                    None => Op::Connect(None),
                    Some(p) => match typed_value(*t, p, &mut formats) {
                        Some(i) => Op::ConnectT(Some(i)),
                        None => Op::Connect(Some(p.bytes())),
                    },
                }
            }
            Act::Ack(t, p) => {
                acked[k] = true;
                match p {
                    None if *t && can_type => Op::AckT(None),
                    None => Op::Ack(None),
                    Some(p) => match typed_value(*t, p, &mut formats) {
                        Some(i) => Op::AckT(Some(i)),
                        None => Op::Ack(Some(p.bytes())),
                    },
                }
            }
            Act::Write(t, p) => match typed_value(*t, p, &mut formats) {
                Some(i) => Op::WriteT(i),
                None => Op::Write(p.bytes()),
            },
            Act::Headed { format, text } => {
                let mut b = vec![0, 0, 0, *format];
                b.extend_from_slice(text.as_bytes());
                Op::Write(b)
            }
            Act::Deliver { k: back, typed, flip } => {
                let o = &out[1 - k];
                let Some(i) = o.len().checked_sub(1 + *back as usize) else { continue };
                let mut b = o[i].clone();
                if let Some(f) = flip {
                    let j = *f as usize % (b.len() * 8);
                    b[j / 8] ^= 1 << (j % 8);
                } else {
                    read[k].push(i);
                }
                if *typed && can_type {
                    Op::ReadT(b)
                } else {
                    Op::Read(b)
                }
            }
            Act::Take => Op::Take,
            Act::Drain => Op::Drain,
            Act::Config(x) => {
                let x = fit(x, sets[k]);
                Op::Config(x)
            }
            Act::Clone => Op::Clone,
            Act::Seed => Op::Seed,
            Act::Debug => Op::Debug,
            Act::Next(..) => continue,
        };
        let a = runners[k].step(&op);
        if let (Op::Config(x), Ans::Done) = (&op, &a) {
            format_now[k] = x.format;
        }
        if let (Ans::Bytes(b), false) = (&a, matches!(op, Op::Seed)) {
            out[k].push(b.clone());
        }
        // in minimal mode the application asks for what is held
        let first = match &a {
            Ans::Got(g) => g.first().cloned(),
            _ => None,
        };
        scripts[k].ops.push(op);
        answers[k].push(a);
        if !c.complete {
            let more = match first {
                Some(Got::Connect(..)) => Some(Op::Take),
                Some(Got::Ack(..)) => Some(Op::Drain),
                _ => None,
            };
            if let Some(op) = more {
                answers[k].push(runners[k].step(&op));
                scripts[k].ops.push(op);
            }
        }
    }
    let users = [0, 1].map(|k: usize| {
        answers[k].iter().map(|a| if let Ans::Got(g) = a { g.iter().filter(|g| matches!(g, Got::User(_))).count() } else { 0 }).sum()
    });
    Run { scripts, answers, formats, users }
}

/// The formats of the typed values in an answer that the build does not have.
fn unknown(a: &Ans, run: &Run, have: &[u8]) -> bool {
    let Ans::Got(g) = a else { return false };
    g.iter().any(|g| {
        let (Got::Connect(_, d) | Got::Ack(d) | Got::User(d)) = g;
        match d {
            Data::Typed(i) => !run.formats.get(&i.n).is_some_and(|f| have.contains(f)),
            _ => false,
        }
    })
}

fn brief(x: &impl std::fmt::Debug) -> String {
    format!("{:?}", x).chars().take(300).collect()
}

fn check(c: &Case, bins: &Bins, obs: &mut Obs) -> Result<(), String> {
    let mut c = c.clone();
    for s in &mut c.sides {
        s.build %= 10;
        if c.complete && s.build == 0 {
            s.build = 1;
        }
    }
    let run = session(&c);
    if run.users[0] > 0 && run.users[1] > 0 && c.sides.iter().any(|s| s.build < 9) {
        obs.nontrivial();
    }
    for k in 0..2 {
        let own = SETS[c.sides[k].build as usize];
        let script = serde_json::to_string(&run.scripts[k]).expect("json");
        for (b, set) in SETS.iter().enumerate() {
            if !includes(set, own) || !bins.there(set) {
                continue;
            }
            let have = typed(set);
            let got = match bins.ask(b, &script) {
                None => {
                    obs.label("a build could not be started");
                    continue;
                }
                Some(Err(e)) => {
                    return Err(format!("the build with features [{}] died or hangs ({}) where the full one answers", set, e))
                }
                Some(Ok(g)) => g,
            };
            obs.extra += got.len() as u64;
            if got.len() != run.answers[k].len() {
                return Err(format!("the build with features [{}] gives {} answers of {}", set, got.len(), run.answers[k].len()));
            }
            for (i, (x, f)) in got.iter().zip(&run.answers[k]).enumerate() {
                if matches!(f, Ans::Panic(_)) {
                    // of both; C07
                    break;
                }
                let op = i.checked_sub(1).map(|i| &run.scripts[k].ops[i]);
                if matches!(op, Some(Op::ReadT(_))) && unknown(f, &run, &have) {
                    obs.label("typed message in a format that the build does not have");
                    if *x != Ans::Err {
                        return Err(format!(
                            "the build with features [{}] reads a typed message in a format it does not have: {}; told {}",
                            set,
                            brief(x),
                            brief(&op)
                        ));
                    }
                } else if x != f {
                    return Err(format!(
                        "layer {} of the {} session, built with features [{}], answers step {} ({}) with {}; built with all of them: {}",
                        k,
                        if c.complete { "complete" } else { "minimal" },
                        set,
                        i,
                        brief(&op),
                        brief(x),
                        brief(f)
                    ));
                }
            }
        }
    }
    Ok(())
}

fn conf() -> impl Strategy<Value = Conf> {
    (0u32..10, prop_oneof![Just(0usize), 0usize..300, Just(8192usize), 0usize..20_000], 0u8..5)
        .prop_map(|(level, min_size, format)| Conf { level, min_size, format })
}

fn side() -> impl Strategy<Value = Side> {
    (0u8..10, proptest::option::weighted(0.8, conf()), proptest::option::weighted(0.8, 0u64..1000), any::<bool>())
        .prop_map(|(build, conf, id, expect)| Side { build, conf, id, expect })
}

fn act() -> impl Strategy<Value = Act> {
    let p = || prop_oneof![5 => small_payload(), 1 => any_payload(20_000)];
    prop_oneof![
        24 => (any::<bool>(), p()).prop_map(|(t, p)| Act::Next(t, p)),
        2 => (any::<bool>(), proptest::option::of(p())).prop_map(|(t, p)| Act::Connect(t, p)),
        2 => (any::<bool>(), proptest::option::of(p())).prop_map(|(t, p)| Act::Ack(t, p)),
        6 => (any::<bool>(), p()).prop_map(|(t, p)| Act::Write(t, p)),
        6 => (0u8..6, any::<bool>()).prop_map(|(k, typed)| Act::Deliver { k, typed, flip: None }),
        1 => (0u8..6, any::<bool>(), any::<u16>()).prop_map(|(k, typed, f)| Act::Deliver { k, typed, flip: Some(f) }),
        2 => (0u8..6, prop_oneof![Just("{}".to_string()), Just("x".to_string()), Just(String::new())])
            .prop_map(|(format, text)| Act::Headed { format, text }),
        1 => Just(Act::Take),
        1 => Just(Act::Drain),
        3 => conf().prop_map(Act::Config),
        1 => Just(Act::Clone),
        1 => Just(Act::Seed),
        1 => Just(Act::Debug),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (any::<bool>(), side(), side(), proptest::collection::vec((any::<bool>(), act()), 6..40), 0u64..1 << 30).prop_map(
        |(m, a, b, plan, seed)| Case { complete: m || a.build % 2 == 1, sides: [a, b], plan, loose: true, seed },
    )
}

/// Whole ordinary sessions between any two builds, with early messages and without, all typed.
fn grid() -> Vec<Case> {
    let p = |n: usize| Payload::new(20 + n, 3, n as u64);
    let mut out = vec![];
    for a in 0..10u8 {
        for b in 0..10u8 {
            for complete in [false, true] {
                for format in 0..5u8 {
                    for order in 0..3 {
                        let side = |build| Side {
                            build,
                            conf: Some(Conf { level: 1, min_size: 0, format }),
                            id: Some(build as u64 + 5),
                            expect: order == 1,
                        };
                        let next = |k: bool, n| (k, Act::Next(true, p(n)));
                        let d = |who: bool, k: u8, t: bool| (who, Act::Deliver { k, typed: t, flip: None });
                        let plan = match order {
                            0 => (0..16).map(|n| next(n % 2 == 1, n)).collect(),
                            1 => {
                                // all of A's, then in another order at B
                                vec![
                                    (false, Act::Connect(true, Some(p(1)))),
                                    (true, Act::Connect(true, Some(p(2)))),
                                    d(false, 0, true),
                                    (false, Act::Ack(true, Some(p(3)))),
                                    d(true, 0, true),
                                    d(true, 1, true),
                                    (true, Act::Ack(true, Some(p(4)))),
                                    (true, Act::Write(true, p(5))),
                                    (true, Act::Write(false, p(6))),
                                    d(false, 1, true),
                                    d(false, 0, true),
                                    d(false, 2, true),
                                    next(false, 7),
                                    next(true, 8),
                                    next(true, 9),
                                    next(false, 10),
                                ]
                            }
                            _ => {
                                let mut v: Vec<_> = (0..12).map(|n| next(n % 2 == 1, n)).collect();
                                for f in 0..6u8 {
                                    let x = Conf { level: 6, min_size: 10, format: f % 5 };
                                    v.push((false, Act::Config(x)));
                                    v.push((false, Act::Write(true, p(f as usize))));
                                    v.push(d(true, 0, true));
                                    v.push((false, Act::Headed { format: f, text: "{}".into() }));
                                    v.push(d(true, 0, f % 2 == 0));
                                    v.push((true, Act::Write(true, p(30))));
                                    v.push(d(false, 0, true));
                                }
                                v
                            }
                        };
                        out.push(Case { complete, sides: [side(a), side(b)], plan, loose: false, seed: out.len() as u64 });
                    }
                }
            }
        }
    }
    out
}

/// Many messages of one direction, in an order that needs much to be remembered.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    complete: bool,
    n: usize,
    /// 0: the first comes last; 1: backwards; 2: before the ACK, backwards; 3: each twice.
    order: u8,
    seed: u64,
}

fn check_flood(c: &Flood, bins: &Bins, obs: &mut Obs) -> Result<(), String> {
    let mk = |k: u8| Script {
        complete: c.complete,
        conf: None,
        id: Some([k + 1; 32]),
        expected: None,
        salt: c.seed ^ (k as u64) << 50,
        ops: vec![],
    };
    let mut scripts = [mk(0), mk(1)];
    let (ra, aa) = Runner::create(&scripts[0]);
    let (rb, ab) = Runner::create(&scripts[1]);
    let mut runners = [ra, rb];
    let mut answers = [vec![aa], vec![ab]];
    let mut told = |k: usize, op: Op| {
        let a = runners[k].step(&op);
        scripts[k].ops.push(op);
        answers[k].push(a.clone());
        match a {
            Ans::Bytes(b) => b,
            _ => vec![],
        }
    };
    let ca = told(0, Op::Connect(None));
    let cb = told(1, Op::Connect(None));
    told(0, Op::Read(cb));
    told(1, Op::Read(ca));
    let a = told(0, Op::Ack(None));
    let b = told(1, Op::Ack(None));
    told(0, Op::Read(b));
    let msgs: Vec<Vec<u8>> = (0..c.n).map(|i| told(0, Op::Write(vec![i as u8]))).collect();
    if c.order != 2 {
        told(1, Op::Read(a.clone()));
    }
    let mut v = msgs.clone();
    match c.order {
        0 => v.rotate_left(1),
        3 => v = msgs.iter().flat_map(|m| [m.clone(), m.clone()]).collect(),
        _ => v.reverse(),
    }
    told(1, Op::ReadMany(v));
    if c.order == 2 {
        told(1, Op::Read(a));
        if !c.complete {
            told(1, Op::Drain);
        }
    }
    told(1, Op::Clone);
    told(1, Op::ReadMany(msgs));
    told(1, Op::Write(b"and back".to_vec()));
    let script = serde_json::to_string(&scripts[1]).expect("json");
    for (k, set) in SETS.iter().enumerate() {
        if (c.complete && !has_zip(set)) || !bins.there(set) {
            continue;
        }
        match bins.ask(k, &script) {
            None => obs.label("a build could not be started"),
            Some(Err(e)) => {
                return Err(format!("the build with features [{}] died or hangs ({}) where the full one answers", set, e))
            }
            Some(Ok(got)) => {
                obs.nontrivial();
                obs.extra += c.n as u64;
                if let Some(i) = (0..answers[1].len()).find(|i| got.get(*i) != answers[1].get(*i)) {
                    let at = match (&got.get(i), &answers[1][i]) {
                        (Some(Ans::Many(g)), Ans::Many(w)) => (0..w.len()).find(|j| g.get(*j) != w.get(*j)),
                        _ => None,
                    };
                    return Err(format!(
                        "of {} messages in order {} the build with features [{}] answers step {} (message {:?}) otherwise than \
                         the one with all of them: {} / {}",
                        c.n,
                        c.order,
                        set,
                        i,
                        at,
                        brief(&got.get(i)),
                        brief(&answers[1][i])
                    ));
                }
            }
        }
    }
    Ok(())
}

fn floods(deep: bool) -> Vec<Flood> {
    let mut out = vec![];
    let mut sizes = vec![70, 300, 1_100, 10_001, 10_002];
    if deep {
        sizes.extend([2, 17, 33, 65, 129, 257, 513, 1_025, 2_049, 4_097, 8_193, 9_999, 10_000, 10_003, 20_000]);
    }
    for n in sizes {
        for order in 0..4 {
            for complete in [false, true] {
                // what is held is searched for each message
                if order == 2 && n > 2_000 {
                    continue;
                }
                out.push(Flood { complete, n, order, seed: out.len() as u64 });
            }
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    let bins = Bins { dir: ctx.root.join("feat").join("bin") };
    let here: Vec<&&str> = SETS.iter().filter(|s| bins.there(s)).collect();
    if here.is_empty() && SETS.iter().all(|s| bins.failure(s).is_none()) {
        eprintln!("check error: no builds in {}; run check.sh", bins.dir.display());
        return 2;
    }
    ctx.each("builds", SETS.iter().map(|s| s.to_string()).collect(), |set: &String, _| match bins.failure(set) {
        // the build with all features compiles, or this program would not be there
        Some(e) => Err(format!("does not compile with the features [{}]: {}", set, e.chars().take(1000).collect::<String>())),
        None => Ok(()),
    });
    ctx.each("grid", grid(), |c: &Case, obs| check(c, &bins, obs));
    ctx.each("floods", floods(ctx.pick(false, true)), |c: &Flood, obs| check_flood(c, &bins, obs));
    ctx.prop("sessions", ctx.pick(12_000, 400_000), case, |c: &Case, obs| check(c, &bins, obs));
    ctx.finish(
        RULE,
        "exploration",
        &[
            "the build with all features is the reference (the other properties judge it)",
            "feature sets: none, zip-sign, ser, and every subset of bin, cbor, json",
        ],
    )
}
