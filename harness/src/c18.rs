//! C18: sessions are isolated from one another.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::hist::{self, strat, *};
use crate::peer::Peer;
use crate::refcrypto::{sha256, Identity};
use crate::setup::{self, Solo, Stage, STAGES};
use crate::sut::{Got, Layer, Mode};
use crate::values::Val;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufWriter, Read, Write};
use std::sync::{mpsc, Barrier, Mutex};

const RULE: &str = "generated histories of several sessions (some with the same identities on both sides), each first run alone, \
 then all interleaved step by step under a generated schedule on one thread, in parallel threads, and with the layers \
 handed from thread to thread: every result and every emitted byte must be the same as alone (the entropy of each step is \
 a function of session and step). Cross delivery: all sequences of up to three messages of one session given to a layer \
 of another, in every state and with the same identities: none may be delivered as an ACK or a user message. One peer's \
 CONNECT used with up to six layers, sessions that go on inside the sinks and values of another, whose sessions must all go on as alone; thousands of layers in one process. Non-trivial: \
 two sessions emitted or delivered something.";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sessions: Vec<History>,
    /// Sessions that share their identities do so with this number.
    ids: Option<u64>,
    /// Which session goes next (in turn, modulo those left).
    schedule: Vec<u8>,
}

/// A running session and what was seen of it.
struct Runner<'a> {
    h: &'a History,
    ids: Option<u64>,
    salt: u64,
    at: usize,
    world: Option<World>,
    seen: Vec<String>,
}

impl<'a> Runner<'a> {
    fn new(h: &'a History, ids: Option<u64>, k: usize) -> Runner<'a> {
        Runner { h, ids, salt: h.setup.seed ^ (k as u64) << 40, at: 0, world: None, seen: vec![] }
    }
    fn done(&self) -> bool {
        self.at > self.h.ops.len()
    }
    /// Creation is the first step.
    fn step(&mut self) {
        let at = self.at;
        self.at += 1;
        if at == 0 {
            // the same history may occur twice, with other ephemeral keys
            let setup = Setup { seed: self.salt, ..self.h.setup.clone() };
            match World::with_identities(&setup, self.ids) {
                Ok(w) => self.world = Some(w),
                Err(e) => self.seen.push(e),
            }
            return;
        }
        let Some(w) = &mut self.world else { return };
        entropy::set(self.salt.wrapping_mul(31).wrapping_add(at as u64));
        let out = w.outbox.len();
        let r = w.step(&self.h.ops[at - 1]);
        let bytes: Vec<&Vec<u8>> = w.outbox[out..].iter().collect();
        self.seen.push(format!("{:?} {:?}", r.map(|r| r.1), bytes));
        entropy::off();
    }
    fn run(&mut self) {
        while !self.done() {
            self.step();
        }
    }
}

fn alone(c: &Case) -> Vec<Vec<String>> {
    c.sessions
        .iter()
        .enumerate()
        .map(|(k, h)| {
            let mut r = Runner::new(h, c.ids, k);
            r.run();
            r.seen
        })
        .collect()
}

/// One session, in a process in which nothing else ever ran.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Lonely {
    Session(Case, usize),
    Conversation(Busy, u64),
}

/// What that process does: the case comes on its standard input.
pub fn alone_main() -> i32 {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 2;
    }
    let Ok(l) = serde_json::from_str::<Lonely>(&s) else { return 2 };
    let seen = match l {
        Lonely::Session(c, k) => {
            let mut r = Runner::new(&c.sessions[k], c.ids, k);
            r.run();
            r.seen
        }
        Lonely::Conversation(b, k) => digest(&conversation(&b, k)),
    };
    println!("\n@{}", serde_json::to_string(&seen).expect("json"));
    0
}

fn lonely(l: &Lonely) -> Option<Vec<String>> {
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::current_exe().ok()?)
        .arg("c18-alone")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    p.stdin.take()?.write_all(serde_json::to_string(l).ok()?.as_bytes()).ok()?;
    let out = p.wait_with_output().ok()?;
    if !out.status.success() {
        return None;
    }
    let text = String::from_utf8_lossy(&out.stdout);
    serde_json::from_str(text.lines().rev().find_map(|l| l.strip_prefix('@'))?).ok()
}

/// Each session in a process of its own, compared with all of them here, one after the other,
/// where many others ran before.
fn fresh(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut want = vec![];
    for k in 0..c.sessions.len() {
        match lonely(&Lonely::Session(c.clone(), k)) {
            Some(s) => want.push(s),
            None => {
                obs.label("no answer from the other process");
                return Ok(());
            }
        }
    }
    note(&want, obs);
    let have = alone(c);
    for k in 0..want.len() {
        same("after other sessions", k, &c.sessions[k], &want[k], &have[k])?;
    }
    Ok(())
}

fn digest(r: &Result<Vec<Vec<u8>>, String>) -> Vec<String> {
    match r {
        Err(e) => vec![e.clone()],
        Ok(v) => v.iter().map(|b| format!("{} bytes {:?}", b.len(), &sha256(b)[..8])).collect(),
    }
}

fn same(how: &str, k: usize, h: &History, want: &[String], have: &[String]) -> Result<(), String> {
    if want == have {
        return Ok(());
    }
    let i = want.iter().zip(have).position(|(a, b)| a != b).unwrap_or(want.len().min(have.len()));
    let cut = |s: Option<&String>| s.map(|s| s.chars().take(300).collect::<String>());
    Err(format!(
        "{}: session {} answers step {} ({:?}) with {:?}; alone with {:?}",
        how,
        k,
        i,
        h.ops.get(i),
        cut(have.get(i)),
        cut(want.get(i))
    ))
}

fn note(want: &[Vec<String>], obs: &mut Obs) {
    let alive = |s: &&Vec<String>| s.iter().any(|l| l.contains("Ok([") && !l.ends_with(" []") || l.contains("Ok([C") || l.contains("Ok([U"));
    if want.iter().filter(alive).count() > 1 {
        obs.nontrivial();
    }
}

fn interleaved(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let want = alone(c);
    note(&want, obs);
    let mut rs: Vec<Runner> = c.sessions.iter().enumerate().map(|(k, h)| Runner::new(h, c.ids, k)).collect();
    let mut t = 0;
    loop {
        let left: Vec<usize> = (0..rs.len()).filter(|k| !rs[*k].done()).collect();
        if left.is_empty() {
            break;
        }
        let k = left[c.schedule.get(t % c.schedule.len().max(1)).copied().unwrap_or(0) as usize % left.len()];
        t += 1;
        rs[k].step();
    }
    for (k, r) in rs.iter().enumerate() {
        same("interleaved on one thread", k, r.h, &want[k], &r.seen)?;
    }
    Ok(())
}

fn threads(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let want = alone(c);
    note(&want, obs);
    // every session in a thread of its own
    let bar = Barrier::new(c.sessions.len());
    let seen: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .sessions
            .iter()
            .enumerate()
            .map(|(k, h)| {
                let bar = &bar;
                sc.spawn(move || {
                    let mut r = Runner::new(h, c.ids, k);
                    bar.wait();
                    r.run();
                    r.seen
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("session")).collect()
    });
    for k in 0..seen.len() {
        same("in threads", k, &c.sessions[k], &want[k], &seen[k])?;
    }
    // the sessions go round between the threads
    let n = 3;
    let done: Mutex<Vec<(usize, Vec<String>)>> = Mutex::new(vec![]);
    let (txs, rxs): (Vec<_>, Vec<_>) = (0..n).map(|_| mpsc::channel::<Option<(usize, Runner)>>()).unzip();
    for (k, h) in c.sessions.iter().enumerate() {
        let _ = txs[k % n].send(Some((k, Runner::new(h, c.ids, k))));
    }
    let total = c.sessions.len();
    std::thread::scope(|sc| {
        for (t, rx) in rxs.into_iter().enumerate() {
            let (txs, done) = (txs.clone(), &done);
            sc.spawn(move || {
                while let Ok(Some((k, mut r))) = rx.recv() {
                    r.step();
                    if r.done() {
                        let mut d = done.lock().unwrap();
                        d.push((k, r.seen));
                        if d.len() == total {
                            for t in &txs {
                                let _ = t.send(None);
                            }
                        }
                    } else {
                        let next = c.schedule.get(r.at % c.schedule.len().max(1)).copied().unwrap_or(1) as usize;
                        let _ = txs[(t + next) % n].send(Some((k, r)));
                    }
                }
            });
        }
    });
    for (k, s) in done.into_inner().unwrap() {
        same("handed between threads", k, &c.sessions[k], &want[k], &s)?;
    }
    Ok(())
}

thread_local! {
    /// Sessions that go on wherever the library calls the application back.
    static INNER: std::cell::RefCell<Option<(Vec<Runner<'static>>, usize)>> = const { std::cell::RefCell::new(None) };
}

/// The next step of the next of them.
fn reenter() {
    let Some((mut rs, t)) = INNER.with(|i| i.borrow_mut().take()) else { return };
    let n = rs.len();
    if let Some(k) = (0..n).map(|k| (t + k) % n).find(|k| !rs[*k].done()) {
        rs[k].step();
    }
    INNER.with(|i| *i.borrow_mut() = Some((rs, t + 1)));
}

/// A value during whose (de)serialisation other sessions go on.
#[derive(Debug)]
struct Nest(Vec<u8>);

impl Serialize for Nest {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        reenter();
        let r = self.0.serialize(s);
        reenter();
        r
    }
}

impl<'de> Deserialize<'de> for Nest {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Nest, D::Error> {
        reenter();
        let r = Vec::deserialize(d).map(Nest);
        reenter();
        r
    }
}

/// A sink during whose writes other sessions go on.
struct Through {
    got: Vec<u8>,
    piece: usize,
}

impl Write for Through {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.piece.max(1));
        reenter();
        self.got.extend_from_slice(&b[..n]);
        reenter();
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        reenter();
        Ok(())
    }
}

/// Sessions inside the writes and the values of another one (a tunnel in a tunnel).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested {
    mode: Mode,
    cfg: Cfg,
    msgs: Vec<(Payload, bool)>,
    cap: u16,
    piece: u16,
    seed: u64,
    inner: Case,
}

/// The messages of the outer session and what they deliver.
fn outer(c: &Nested) -> Vec<String> {
    fn through<F: FnOnce(&mut BufWriter<Through>) -> pkstl::Result<()>>(c: &Nested, f: F) -> Result<Vec<u8>, String> {
        let mut w = BufWriter::with_capacity(c.cap as usize, Through { got: vec![], piece: c.piece as usize });
        let r = crate::sut::catch(|| f(&mut w));
        let flushed = w.flush().is_ok();
        let (t, _) = w.into_parts();
        match r {
            Ok(()) if flushed => Ok(t.got),
            Ok(()) => Err("flush".into()),
            Err(e) => Err(e.to_string()),
        }
    }
    let e = |e: crate::sut::E| e.to_string();
    let mut log = vec![];
    let mut go = || -> Result<(), String> {
        entropy::set(c.seed);
        let mut a = Layer::create(c.mode, c.cfg.get(), setup::own_seed(c.seed, 1), None).map_err(e)?;
        let mut b = Layer::create(c.mode, c.cfg.get(), setup::own_seed(c.seed, 2), None).map_err(e)?;
        let mb = b.connect(None).map_err(e)?;
        let ma = match &mut a {
            Layer::Min(..) => a.connect(None).map_err(e)?,
            Layer::Full(l) => through(c, |w| l.write_connect_msg(Some(&Nest(vec![1; 20])), w))?,
        };
        log.push(format!("{:?}", a.read(&mb).map_err(e)?));
        log.push(format!("{:?} {:?}", ma, b.read(&ma).map_err(e)?));
        let mb = b.ack(None).map_err(e)?;
        let ma = match &mut a {
            Layer::Min(..) => a.ack(None).map_err(e)?,
            Layer::Full(l) => through(c, |w| l.write_ack_msg(Some(&Nest(vec![2; 20])), w))?,
        };
        log.push(format!("{:?}", a.read(&mb).map_err(e)?));
        let got = match &mut b {
            Layer::Min(..) => format!("{:?}", b.read(&ma).map_err(e)?),
            Layer::Full(l) => format!("{:?}", crate::sut::catch(|| l.read::<Nest>(&ma)).map_err(e)?),
        };
        log.push(format!("{:?} {}", ma, got));
        for (p, typed) in &c.msgs {
            let d = p.bytes();
            let typed = *typed && c.mode == Mode::Complete;
            let m = match &mut a {
                Layer::Min(l, _) => through(c, |w| l.write_message(&d, w))?,
                Layer::Full(l) if typed => through(c, |w| l.write(&Nest(d.clone()), w))?,
                Layer::Full(l) => through(c, |w| l.write_bin(&d, w))?,
            };
            let got = match &mut b {
                Layer::Full(l) if typed => format!("{:?}", crate::sut::catch(|| l.read::<Nest>(&m)).map_err(e)?),
                _ => format!("{:?}", b.read(&m).map_err(e)?),
            };
            log.push(format!("{:?} {}", m, got));
        }
        Ok(())
    };
    let r = go();
    log.push(format!("{:?}", r));
    entropy::off();
    log
}

fn nested(c: &Nested, obs: &mut Obs) -> Result<(), String> {
    let want = alone(&c.inner);
    let want_outer = outer(c);
    let rs: Vec<Runner> = c.inner.sessions.iter().enumerate().map(|(k, h)| Runner::new(h, c.inner.ids, k)).collect();
    // taken back before this function returns
    let rs: Vec<Runner<'static>> = unsafe { std::mem::transmute::<Vec<Runner<'_>>, Vec<Runner<'static>>>(rs) };
    INNER.with(|i| *i.borrow_mut() = Some((rs, 0)));
    let have_outer = outer(c);
    let Some((mut rs, calls)) = INNER.with(|i| i.borrow_mut().take()) else { return Ok(()) };
    rs.iter_mut().for_each(|r| r.run());
    obs.extra += calls as u64;
    if have_outer != want_outer {
        let k = want_outer.iter().zip(&have_outer).position(|(a, b)| a != b).unwrap_or(0);
        let cut = |s: Option<&String>| s.map(|s| s.chars().take(200).collect::<String>());
        return Err(format!(
            "while other sessions go on inside its writes and values, a session does at step {} {:?}; alone {:?}",
            k,
            cut(have_outer.get(k)),
            cut(want_outer.get(k))
        ));
    }
    for (k, r) in rs.iter().enumerate() {
        same("inside the writes and values of another session", k, r.h, &want[k], &r.seen)?;
    }
    if calls > 1 {
        obs.nontrivial();
    }
    Ok(())
}

/// Makes all payloads of a session siblings: one length, the same bytes in another order.
fn kin(h: &mut History, len: usize) {
    let f = |p: &mut Payload| *p = Payload::new(len, 10, p.seed % 6);
    let g = |p: &mut Option<Payload>| p.iter_mut().for_each(f);
    for op in &mut h.ops {
        match op {
            Op::Connect(p) | Op::Ack(p) | Op::Recv(Msg::Connect(p, _) | Msg::Ack(p, _)) => g(p),
            Op::Write(p) | Op::BadWrite(p, ..) | Op::Recv(Msg::User(_, p, _)) => f(p),
            _ => {}
        }
    }
    if h.setup.mode == Mode::Complete {
        h.setup.cfg = Cfg { level: 1, min_size: len.saturating_sub(40), format: h.setup.cfg.format };
    }
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    (
        proptest::collection::vec(strat::history(max), 2..5),
        proptest::option::of(0u64..50),
        any::<bool>(),
        proptest::collection::vec(any::<u8>(), 1..60),
        prop_oneof![2 => Just(None), 1 => proptest::sample::select(vec![30usize, 64, 200, 1000]).prop_map(Some)],
    )
        .prop_map(|(mut sessions, ids, twins, schedule, family)| {
            if let Some(n) = family {
                sessions.iter_mut().for_each(|h| kin(h, n));
            }
            if twins {
                let s = sessions[0].clone();
                sessions[1] = s;
            }
            Case { sessions, ids, schedule }
        })
}

/// Two layers on each side, all of the system under test, with large and typed messages.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Busy {
    pairs: u8,
    mode: Mode,
    same_ids: bool,
    rounds: u16,
    payload: Payload,
    value: Val,
    seed: u64,
}

fn conversation(c: &Busy, k: u64) -> Result<Vec<Vec<u8>>, String> {
    let e = |e: crate::sut::E| e.to_string();
    let who = if c.same_ids { 0 } else { k };
    entropy::set(c.seed ^ k << 20);
    let cfg = Cfg { level: (k % 10) as u32, min_size: 100, format: 2 + (k % 3) as u8 };
    let mut a = Layer::create(c.mode, cfg.get(), setup::own_seed(who, 1), None).map_err(e)?;
    let mut b = Layer::create(c.mode, Cfg::default().get(), setup::own_seed(who, 2), None).map_err(e)?;
    let mut log = vec![];
    let ca = a.connect(Some(&k.to_be_bytes())).map_err(e)?;
    let cb = b.connect(None).map_err(e)?;
    a.read(&cb).map_err(e)?;
    b.read(&ca).map_err(e)?;
    let aa = a.ack(None).map_err(e)?;
    let ab = b.ack(None).map_err(e)?;
    a.read(&ab).map_err(e)?;
    b.read(&aa).map_err(e)?;
    log.extend([ca, cb, aa, ab]);
    let bytes = c.payload.bytes();
    for r in 0..c.rounds {
        let (w, got) = if let (Layer::Full(x), Layer::Full(y), true) = (&mut a, &mut b, r % 3 == 2) {
            let mut w = BufWriter::new(Vec::new());
            crate::sut::catch(|| x.write(&c.value, &mut w)).map_err(e)?;
            let w = w.into_inner().map_err(|e| e.to_string())?;
            let got = crate::sut::catch(|| y.read::<Val>(&w)).map_err(e)?;
            (w, format!("{:?}", got).into_bytes())
        } else {
            let d = if r % 4 < 2 {
                [&r.to_be_bytes()[..], &k.to_be_bytes(), &bytes].concat()
            } else {
                // siblings of the payloads of the others
                Payload::new(100 + bytes.len(), 10, r as u64 % 64 + k * 64).bytes()
            };
            let (x, y) = if r % 2 == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let w = x.write(&d).map_err(e)?;
            let got = y.read(&w).map_err(e)?;
            (w, format!("{:?}", got).into_bytes())
        };
        log.push(w);
        log.push(got);
    }
    entropy::off();
    Ok(log)
}

fn busy(c: &Busy, obs: &mut Obs) -> Result<(), String> {
    let want: Vec<_> = (0..c.pairs as u64).map(|k| lonely(&Lonely::Conversation(c.clone(), k))).collect();
    let Some(want) = want.into_iter().collect::<Option<Vec<_>>>() else {
        obs.label("no answer from the other process");
        return Ok(());
    };
    let bar = Barrier::new(c.pairs as usize);
    let have: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..c.pairs as u64)
            .map(|k| {
                let bar = &bar;
                sc.spawn(move || {
                    bar.wait();
                    conversation(c, k)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("conversation")).collect()
    });
    for (k, (w, h)) in want.iter().zip(&have).enumerate() {
        let h = digest(h);
        if *w != h {
            let i = w.iter().zip(&h).position(|(a, b)| a != b).unwrap_or(w.len().min(h.len()));
            return Err(format!(
                "conversation {} among {} in parallel differs from the same one alone at entry {}: {:?}, alone {:?}",
                k,
                c.pairs,
                i,
                h.get(i),
                w.get(i)
            ));
        }
    }
    obs.extra += c.rounds as u64 * c.pairs as u64;
    if want.iter().all(|w| w.len() > 4) {
        obs.nontrivial();
    }
    Ok(())
}

/// Messages of another session at a layer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cross {
    mode: Mode,
    expect: bool,
    stage: Stage,
    same_ids: bool,
    seed: u64,
    /// Which messages, see `pool`.
    msgs: Vec<u8>,
    /// Ask for what is held after each.
    ask: bool,
    nonce: u64,
}

fn solo_of(mode: Mode, expect: bool, stage: Stage, ids: u64, eph: u64) -> Result<Solo, String> {
    let mut peer = Peer::new(eph, mode == Mode::Complete);
    peer.id = Identity::of(ids ^ 0x1D);
    entropy::set(eph);
    let r = setup::solo_with(mode, &Cfg::default(), expect, stage, ids, peer);
    entropy::off();
    r
}

const POOL: u8 = 8;

fn cross(c: &Cross, obs: &mut Obs) -> Result<(), String> {
    let other_ids = if c.same_ids { c.seed } else { c.seed ^ 0xFF00 };
    let Ok(mut t) = solo_of(c.mode, c.expect, c.stage, c.seed, c.seed << 1) else {
        obs.label("no session");
        return Ok(());
    };
    let Ok(mut o) = solo_of(c.mode, c.expect, Stage::Done, other_ids, c.seed << 1 | 1) else {
        obs.label("no session");
        return Ok(());
    };
    let own_user = o.layer.write(b"of the other layer").unwrap_or_default();
    obs.nontrivial();
    let mut left = vec![];
    for k in &c.msgs {
        let (name, m) = match k % POOL {
            0 => ("the other peer's CONNECT", o.peer.connect(None)),
            1 => ("the other peer's ACK", o.peer.ack(Some(b"x"))),
            2 => ("a user message of the other peer", o.peer.user(c.nonce, Some(b"foreign"))),
            3 => ("the CONNECT of the other session's layer", o.connect.clone()),
            4 => ("the ACK of the other session's layer", o.ack.clone()),
            5 => ("a user message of the other session's layer", own_user.clone()),
            6 => ("the other peer's ACK without data", o.peer.ack(None)),
            _ => ("a later user message of the other peer", o.peer.user(c.nonce + 1, None)),
        };
        left.push(name);
        let mut all = vec![t.layer.read(&m)];
        if c.ask {
            all.push(t.layer.take());
            all.push(t.layer.drain());
        }
        for r in all.into_iter().flatten() {
            // what the own session had held may come out
            for g in r {
                let own_held = matches!(&g, Got::User { data: Some(d) } if d == b"held")
                    || matches!((&g, c.stage), (Got::Ack { data: None }, Stage::EarlyAck));
                if !own_held && !matches!(g, Got::Connect { .. }) {
                    return Err(format!("in state {:?}, after {:?}: delivered {:?}", c.stage, left, g));
                }
            }
        }
    }
    Ok(())
}

/// One peer (one CONNECT, one ephemeral key) and several layers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    mode: Mode,
    layers: u8,
    expect: bool,
    /// Whose turn it is: each turn is the next step of that layer's session.
    turns: Vec<u8>,
    seed: u64,
}

fn shared(c: &Shared, obs: &mut Obs) -> Result<(), String> {
    let zipped = c.mode == Mode::Complete;
    let first = Peer::new(c.seed ^ 0x54A2ED, zipped);
    let connect = first.connect(Some(b"to all"));
    struct One {
        layer: Layer,
        peer: Peer,
        at: u64,
        sent: u64,
    }
    let mut all = vec![];
    for k in 0..c.layers as u64 {
        entropy::set(c.seed ^ k << 50);
        let own = setup::own_seed(c.seed, k);
        let expected = c.expect.then(|| first.id.pk().to_vec());
        let Ok(layer) = Layer::create(c.mode, Cfg::default().get(), own, expected) else { return Ok(()) };
        let mut peer = Peer::new(c.seed ^ 0x54A2ED, zipped);
        peer.id = Identity::of(c.seed ^ 0x54A2ED);
        all.push(One { layer, peer, at: 0, sent: 0 });
    }
    let mut done = 0;
    let ends = (0..8).flat_map(|_| 0..c.layers);
    for k in c.turns.iter().map(|t| t % c.layers).chain(ends) {
        let o = &mut all[k as usize];
        let fail = |e: String| format!("layer {} of {}, step {}: {}", k, c.layers, o.at, e);
        let data = [&[k][..], &o.at.to_be_bytes()].concat();
        match o.at {
            0 => {
                let m = o.layer.connect(None).map_err(|e| fail(format!("CONNECT: {}", e)))?;
                let Some(e) = m.get(18..50) else { return Ok(()) };
                o.peer.see_epk(e.try_into().unwrap());
            }
            1 => match o.layer.read(&connect).as_deref() {
                Ok([Got::Connect { .. }]) => {}
                r => return Err(fail(format!("the peer's CONNECT: {:?}", r))),
            },
            2 => {
                let m = o.layer.ack(None).map_err(|e| fail(format!("ACK: {}", e)))?;
                let want = sha256(&first.epk);
                if m.get(18..50) != Some(&want[..]) {
                    return Err(fail("another challenge".into()));
                }
            }
            3 => match o.layer.read(&o.peer.ack(Some(&data))).as_deref() {
                Ok([Got::Ack { data: Some(d) }]) if *d == data => {}
                r => return Err(fail(format!("the peer's ACK: {:?}", r))),
            },
            n if n % 2 == 0 => {
                let m = o.layer.write(&data).map_err(|e| fail(format!("writing: {}", e)))?;
                let Some(key) = o.peer.key else { return Ok(()) };
                match crate::wire::decode(&m, Some(&key), None) {
                    Ok(crate::wire::Decoded::User { .. }) => {}
                    r => return Err(fail(format!("a user message is not sealed with this session's key: {:?}", r.err()))),
                }
                done += 1;
            }
            _ => {
                let m = o.peer.user(o.sent, Some(&data));
                o.sent += 1;
                match o.layer.read(&m).as_deref() {
                    Ok([Got::User { data: Some(d) }]) if *d == data => {}
                    r => return Err(fail(format!("a user message of the peer: {:?}", r))),
                }
            }
        }
        o.at += 1;
    }
    obs.extra += done;
    if c.layers > 1 {
        obs.nontrivial();
    }
    Ok(())
}

/// More sessions than anything counts, one after another or all alive.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    mode: Mode,
    n: u32,
    alive: bool,
    seed: u64,
}

fn many(c: &Many, obs: &mut Obs) -> Result<(), String> {
    let Ok(mut early) = setup::pair(c.mode, &Cfg::default(), &Cfg::default(), c.seed) else { return Ok(()) };
    let mut layers = vec![];
    entropy::set(c.seed ^ 1);
    for k in 0..c.n as u64 {
        let l = Layer::create(c.mode, Cfg::default().get(), setup::own_seed(c.seed, k), None)
            .map_err(|e| format!("creating layer {}: {}", k, e))?;
        if c.alive {
            layers.push(l);
        }
        obs.extra += 1;
    }
    if layers.len() > 1 {
        // the last ones negotiate with the first ones
        let n = layers.len();
        for (i, j) in [(0, n - 1), (1, n - 2)] {
            let e = |e: crate::sut::E| format!("layers {} and {} of {}: {}", i, j, n, e);
            let mi = layers[i].connect(None).map_err(e)?;
            let mj = layers[j].connect(None).map_err(e)?;
            layers[i].read(&mj).map_err(e)?;
            layers[j].read(&mi).map_err(e)?;
            let mi = layers[i].ack(None).map_err(e)?;
            let mj = layers[j].ack(None).map_err(e)?;
            layers[i].read(&mj).map_err(e)?;
            layers[j].read(&mi).map_err(e)?;
            let m = layers[i].write(b"across").map_err(e)?;
            if layers[j].read(&m) != Ok(vec![Got::User { data: Some(b"across".to_vec()) }]) {
                return Err(format!("layers {} and {} of {}: a user message is not delivered", i, j, n));
            }
        }
    }
    for k in 0..3u8 {
        let m = early.a.write(&[k]).map_err(|e| format!("after {} sessions, an earlier one: {}", c.n, e))?;
        if early.b.read(&m) != Ok(vec![Got::User { data: Some(vec![k]) }]) {
            return Err(format!("after {} sessions, an earlier one does not deliver", c.n));
        }
    }
    let Ok(mut late) = setup::pair(c.mode, &Cfg::default(), &Cfg::default(), c.seed ^ 2) else {
        return Err(format!("after {} sessions, no further one can be negotiated", c.n));
    };
    let m = late.a.write(b"late").map_err(|e| format!("after {} sessions, a later one: {}", c.n, e))?;
    if late.b.read(&m) != Ok(vec![Got::User { data: Some(b"late".to_vec()) }]) {
        return Err(format!("after {} sessions, a later one does not deliver", c.n));
    }
    obs.nontrivial();
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut words: Vec<Vec<u8>> = vec![];
    for a in 0..POOL {
        words.push(vec![a]);
        for b in 0..POOL {
            words.push(vec![a, b]);
            for c in 0..POOL {
                if ctx.tier == crate::driver::Tier::Thorough || (a + b + c) % 2 == 0 {
                    words.push(vec![a, b, c]);
                }
            }
        }
    }
    words.sort_by_key(|w| w.len());
    let mut x = vec![];
    for w in &words {
        for stage in STAGES {
            for mode in [Mode::Minimal, Mode::Complete] {
                for expect in [false, true] {
                    for same_ids in [true, false] {
                        if !same_ids && (expect || w.len() > 2) {
                            continue;
                        }
                        x.push(Cross {
                            mode, expect, stage, same_ids,
                            seed: 5 + w[0] as u64,
                            msgs: w.clone(),
                            ask: w.len() % 2 == 0 || mode == Mode::Minimal,
                            nonce: if w.len() == 2 { setup::HELD_NONCE } else { 0 },
                        });
                    }
                }
            }
        }
    }
    ctx.each("cross-delivery", x, cross);
    ctx.prop("interleaved", ctx.pick(6000, 250_000), || case(20), interleaved);
    ctx.prop(
        "nested",
        ctx.pick(1500, 50_000),
        || {
            (
                any_mode(),
                (0u32..10, prop_oneof![Just(0usize), Just(8192usize), Just(usize::MAX)], 2u8..5),
                proptest::collection::vec((any_payload(9_000), any::<bool>()), 1..4),
                (prop_oneof![Just(0u16), 1u16..200, Just(8192u16)], prop_oneof![30u16..400, Just(u16::MAX)]),
                any::<u64>(),
                case(14),
            )
                .prop_map(|(mode, (level, min_size, format), msgs, (cap, piece), seed, inner)| Nested {
                    mode,
                    cfg: Cfg { level, min_size, format },
                    msgs,
                    cap,
                    piece,
                    seed,
                    inner,
                })
        },
        nested,
    );
    ctx.prop("threads", ctx.pick(1500, 40_000), || case(20), threads);
    ctx.prop("fresh", ctx.pick(1200, 40_000), || case(16), fresh);
    ctx.prop(
        "busy",
        ctx.pick(60, 2000),
        || {
            (2u8..9, any_mode(), any::<bool>(), 20u16..300, any_payload(6000), crate::values::val(), any::<u64>()).prop_map(
                |(pairs, mode, same_ids, rounds, payload, value, seed)| Busy { pairs, mode, same_ids, rounds, payload, value, seed },
            )
        },
        busy,
    );
    ctx.prop(
        "one-peer",
        ctx.pick(2500, 80_000),
        || {
            (any_mode(), 1u8..7, any::<bool>(), proptest::collection::vec(any::<u8>(), 0..60), any::<u64>())
                .prop_map(|(mode, layers, expect, turns, seed)| Shared { mode, layers, expect, turns, seed })
        },
        shared,
    );
    let mut lots = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for (n, alive) in [(300, true), (1100, false), (ctx.pick(5000, 66_000), true), (ctx.pick(10_000, 66_000), false)] {
            lots.push(Many { mode, n, alive, seed: n as u64 });
        }
    }
    ctx.each("many", lots, many);
    let _ = hist::MAX_ORPHANS;
    ctx.finish(RULE, "exploration", &["thread schedules are those of the operating system, not enumerated"])
}
