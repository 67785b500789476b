//! C15: a successful write puts the whole message on the writer.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::setup::{self, Solo, Stage};
use crate::sink::{Sink, KINDS};
use crate::sut::{self, Layer, Mode, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufWriter, Write};

const RULE: &str = "each kind of message is written through a BufWriter (capacities 0 to 20,000, empty or already holding bytes) \
 to a sink that takes pieces of generated sizes, is interrupted, or fails (for good or once, in four ways) after a number \
 of bytes: for small messages after every number, for large ones at generated ones. The same history on a plain sink says \
 which bytes are due. After a failed user message write more user messages are tried. Non-trivial: the sink split, \
 interrupted or failed inside the message.";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Connect,
    ConnectTyped,
    Ack,
    AckTyped,
    User,
    UserTyped,
}
use Kind::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum To {
    Pieces(Vec<usize>),
    /// Fails for good.
    Fails(usize, u8),
    /// Fails once.
    Once(usize, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    kind: Kind,
    seed: u64,
    /// Payloads of the messages written through one BufWriter (one for CONNECT and ACK).
    data: Vec<Payload>,
    no_data: bool,
    capacity: usize,
    preload: usize,
    to: To,
}

/// A sink that fails once at a place, then goes on.
struct Hiccup {
    sink: Sink,
    once: Option<(usize, u8)>,
    failed: bool,
}

impl Write for Hiccup {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if let (Some((at, kind)), false) = (self.once, buf.is_empty()) {
            let room = at.saturating_sub(self.sink.got.len());
            if room == 0 {
                self.once = None;
                self.failed = true;
                let mut f = Sink::failing(0, kind);
                return f.write(buf);
            }
            return self.sink.write(&buf[..room.min(buf.len())]);
        }
        let r = self.sink.write(buf);
        self.failed |= self.sink.failed;
        r
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn start(c: &Case) -> Option<Solo> {
    let stage = match c.kind {
        Connect | ConnectTyped => Stage::Fresh,
        Ack | AckTyped => Stage::Heard,
        _ => Stage::Done,
    };
    setup::solo(c.mode, &c.cfg, false, stage, c.seed).ok()
}

fn emit<W: Write>(l: &mut Layer, kind: Kind, d: Option<&[u8]>, w: &mut BufWriter<W>) -> R<()> {
    let typed = d.map(|d| d.to_vec());
    let bytes = d.unwrap_or_default();
    match (l, kind) {
        (Layer::Min(l, _), _) => sut::catch(|| l.write_message(bytes, w)),
        (Layer::Full(l), Connect) => sut::catch(|| l.write_connect_msg_bin(d, w)),
        (Layer::Full(l), ConnectTyped) => sut::catch(|| l.write_connect_msg(typed.as_ref(), w)),
        (Layer::Full(l), Ack) => sut::catch(|| l.write_ack_msg_bin(d, w)),
        (Layer::Full(l), AckTyped) => sut::catch(|| l.write_ack_msg(typed.as_ref(), w)),
        (Layer::Full(l), User) => sut::catch(|| l.write_bin(bytes, w)),
        (Layer::Full(l), UserTyped) => sut::catch(|| l.write(&bytes.to_vec(), w)),
    }
}

fn preload(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 1) as u8).collect()
}

/// The bytes due: preload, then each message.
fn due(c: &Case) -> Option<(Vec<u8>, usize)> {
    let mut s = start(c)?;
    let mut out = preload(c.preload);
    for p in &c.data {
        let d = (!c.no_data).then(|| p.bytes());
        let mut w = BufWriter::new(Vec::new());
        emit(&mut s.layer, c.kind, d.as_deref(), &mut w).ok()?;
        out.extend(w.into_inner().ok()?);
    }
    Some((out, c.preload))
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let Some((want, from)) = due(c) else {
        obs.label("no session");
        return Ok(());
    };
    let Some(s) = start(c) else { return Ok(()) };
    write_to(c, s, &want, from, obs)
}

fn write_to(c: &Case, mut s: Solo, want: &[u8], from: usize, obs: &mut Obs) -> Result<(), String> {
    let user = matches!(c.kind, User | UserTyped);
    let mut h = Hiccup { sink: Sink::plain(), once: None, failed: false };
    match &c.to {
        To::Pieces(p) => h.sink = Sink::pieces(p.clone()),
        To::Fails(at, k) => h.sink = Sink::failing(from + at, *k),
        To::Once(at, k) => h.once = Some((from + at, *k)),
    }
    let mut w = BufWriter::with_capacity(c.capacity, h);
    if w.write_all(&preload(c.preload)).is_err() {
        return Ok(());
    }
    let n = c.data.len();
    for (i, p) in c.data.iter().enumerate() {
        let d = (!c.no_data).then(|| p.bytes());
        let r = emit(&mut s.layer, c.kind, d.as_deref(), &mut w);
        if let Err(e) = &r {
            if e.is_panic() {
                return Err(format!("{:?} {} of {}: {}", c.kind, i, n, e));
            }
        }
        let failed = w.get_ref().failed;
        match r {
            Ok(()) if failed && user => {
                return Err(format!("the sink failed during user message {} of {}, yet the call returned success", i, n))
            }
            Ok(()) => {
                if failed {
                    break;
                }
            }
            Err(_) if !failed => {
                return Err(format!("{:?} {} of {}: an error although the sink did not fail", c.kind, i, n));
            }
            Err(_) => {
                obs.nontrivial();
                if !user {
                    return Ok(());
                }
                obs.label("failed inside the call");
                // no further user message, to whatever writer
                for k in 0..3 {
                    let mut v = BufWriter::new(Vec::new());
                    let r = match k {
                        1 => emit(&mut s.layer, UserTyped, Some(b"more"), &mut v),
                        _ => emit(&mut s.layer, User, Some(b"more"), &mut v),
                    };
                    let v = v.into_inner().unwrap_or_default();
                    if r.is_ok() || !v.is_empty() {
                        return Err(format!(
                            "after user message {} of {} failed, another one was written ({} bytes)",
                            i, n, v.len()
                        ));
                    }
                }
                return Ok(());
            }
        }
    }
    let flushed = loop {
        match w.flush() {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            r => break r.is_ok(),
        }
    };
    let failed = w.get_ref().failed;
    let got = &w.get_ref().sink.got;
    if failed {
        obs.label("failed in the flush");
        obs.nontrivial();
    }
    // a flush that reported the failure leaves the rest in the buffer
    if flushed && got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "{:?}: all calls and the flush succeeded, yet the sink has {} bytes instead of {}, the first difference at {}",
            c.kind,
            got.len(),
            want.len(),
            at
        ));
    }
    if matches!(c.to, To::Pieces(_)) {
        obs.nontrivial();
    }
    Ok(())
}

/// Every failing position of one small message.
fn positions(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let Some((want, from)) = due(c) else {
        obs.label("no session");
        return Ok(());
    };
    let (once, k) = match c.to {
        To::Once(_, k) => (true, k),
        To::Fails(_, k) => (false, k),
        _ => return Ok(()),
    };
    for at in 0..=want.len() - from {
        let Some(s) = start(c) else { return Ok(()) };
        let to = if once { To::Once(at, k) } else { To::Fails(at, k) };
        let c = Case { to, ..c.clone() };
        obs.extra += 1;
        write_to(&c, s, &want, from, obs).map_err(|e| format!("failing after {} bytes: {}", at, e))?;
    }
    Ok(())
}

const CAPS: [usize; 9] = [0, 1, 5, 16, 64, 100, 300, 8192, 20_000];

fn kinds(mode: Mode) -> Vec<Kind> {
    match mode {
        Mode::Minimal => vec![User],
        Mode::Complete => vec![User, UserTyped, Connect, ConnectTyped, Ack, AckTyped],
    }
}

fn base() -> impl Strategy<Value = Case> {
    (
        (any_mode(), any::<u8>()),
        (0u32..10, prop_oneof![Just(0usize), Just(8192usize), 0usize..2000], 2u8..5),
        any::<u64>(),
        proptest::collection::vec(any_payload(30_000), 1..5),
        any::<bool>(),
        prop_oneof![3 => proptest::sample::select(CAPS.to_vec()), 1 => 0usize..9000, 1 => near_source(100_000)],
        prop_oneof![2 => Just(0usize), 1 => near_source(20_000), 1 => 0usize..200, 1 => 8000usize..8200],
    )
        .prop_map(|((mode, k), (level, min_size, format), seed, mut data, no_data, capacity, preload)| {
            let ks = kinds(mode);
            let kind = ks[k as usize % ks.len()];
            let user = matches!(kind, User | UserTyped);
            if !user {
                data.truncate(1);
            }
            Case {
                mode,
                cfg: Cfg { level, min_size, format },
                kind,
                seed,
                data,
                no_data: no_data && !user,
                capacity,
                preload,
                to: To::Pieces(vec![]),
            }
        })
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut cases = vec![];
    let sizes: &[usize] = ctx.pick(&[0, 1, 40], &[0, 1, 17, 40, 200, 600]);
    for mode in [Mode::Minimal, Mode::Complete] {
        for kind in kinds(mode) {
            for &capacity in &CAPS {
                for &len in sizes {
                    for k in 0..4u8 {
                        // the fourth stands for all other kinds of errors in turn
                        let k = if k < 3 { k } else { 3 + (cases.len() / 8 % (KINDS as usize - 3)) as u8 };
                        for once in [false, true] {
                            cases.push(Case {
                                mode,
                                cfg: Cfg { format: 4, ..Cfg::default() },
                                kind,
                                seed: len as u64,
                                data: vec![Payload::new(len, 1, 7)],
                                no_data: len == 0 && !matches!(kind, User | UserTyped),
                                capacity,
                                preload: [0, 30][(k % 2) as usize],
                                to: if once { To::Once(0, k) } else { To::Fails(0, k) },
                            });
                        }
                    }
                }
            }
        }
    }
    ctx.each("every-position", cases, positions);
    let mut sized = vec![];
    for (i, capacity) in crate::dict::around(100_000).into_iter().enumerate() {
        for mode in [Mode::Minimal, Mode::Complete] {
            for kind in kinds(mode) {
                for preload in [0, 1, 30, capacity as usize / 2] {
                    let len = [40, capacity as usize, 9000][(i + preload) % 3];
                    sized.push(Case {
                        mode,
                        cfg: Cfg { format: 4, ..Cfg::default() },
                        kind,
                        seed: i as u64,
                        data: vec![Payload::new(len, 1, 7)],
                        no_data: false,
                        capacity: capacity as usize,
                        preload,
                        to: To::Pieces(vec![[7, 100, 8192, 100_000][i % 4]]),
                    });
                }
            }
        }
    }
    ctx.each("capacities-in-the-source", sized, run_case);
    ctx.prop(
        "pieces",
        ctx.pick(12_000, 400_000),
        || {
            (base(), proptest::collection::vec(prop_oneof![1 => Just(0usize), 3 => 1usize..70, 1 => 1usize..9000, 1 => near_source(100_000)], 1..8)).prop_map(
                |(mut c, mut p)| {
                    if p.iter().all(|x| *x == 0) {
                        p.push(3);
                    }
                    c.to = To::Pieces(p);
                    c
                },
            )
        },
        run_case,
    );
    ctx.prop(
        "failures",
        ctx.pick(12_000, 400_000),
        || {
            (base(), prop_oneof![2 => 0usize..300, 2 => 0usize..10_000, 1 => 0usize..90_000, 1 => near_source(90_000)], 0u8..KINDS, any::<bool>()).prop_map(
                |(mut c, at, k, once)| {
                    c.to = if once { To::Once(at, k) } else { To::Fails(at, k) };
                    c
                },
            )
        },
        run_case,
    );
    ctx.finish(RULE, "fault_enumeration", &["the sinks behave as std::io::Write prescribes"])
}
