//! C22: nothing printed or logged discloses a secret.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::{sha256, x25519, SessionKey};
use crate::setup::{advance, own_seed, solo_with, Solo, Stage, STAGES};
use crate::sink::Sink;
use crate::sut::{catch, Layer, Mode, R};
use crate::values::{self, Val};
use crate::wire;
use pkstl::Seed32;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};

const RULE: &str = "histories of layers and clones in every state, both modes. After each call the texts of the layer ({:?}, {:#?} and with every other flag), \
 of the error returned, of what a panic says and of the log records at every level are searched; histories are also run in processes \
 of their own, whose standard output and error are searched. No text may hold six consecutive bytes of the identity seed, its expansion, the \
 ephemeral private key, the shared secret or the 48 derived bytes, as decimal or hexadecimal lists, hexadecimal runs, Base64 or raw. \
 Non-trivial: the layer had a session key when it was printed, or the text is of a seed.";

/// Bytes in a row that count as disclosed.
const W: usize = 6;

/// What of this secret is in the text.
fn discloses(text: &[u8], secret: &[u8]) -> Option<(&'static str, usize)> {
    let wins: Vec<&[u8]> = secret.windows(W).collect();
    // raw
    for (i, w) in wins.iter().enumerate() {
        if text.windows(W).any(|t| t == *w) {
            return Some(("raw", i));
        }
    }
    // lists of numbers, decimal and hexadecimal, and runs of hexadecimal digits
    let mut dec: Vec<u8> = vec![];
    let mut hex: Vec<u8> = vec![];
    let hit = |v: &[u8]| v.windows(W).find_map(|t| wins.iter().position(|w| t == *w));
    let mut res = None;
    let mut tok = |t: &[u8], dec: &mut Vec<u8>, hex: &mut Vec<u8>| {
        if t.is_empty() || res.is_some() {
            return;
        }
        let s = std::str::from_utf8(t).unwrap_or("");
        match s.parse::<i64>() {
            Ok(n) if (-128..256).contains(&n) => dec.push(n as u8),
            _ => {
                if let Some(i) = hit(dec) {
                    res = Some(("decimal", i));
                }
                dec.clear();
            }
        }
        let h = s.strip_prefix("0x").or(s.strip_prefix("x")).unwrap_or(s).trim_end_matches("u8");
        if h.len() <= 2 {
            match u8::from_str_radix(h, 16) {
                Ok(n) => hex.push(n),
                Err(_) => {
                    if let Some(i) = hit(hex) {
                        res = Some(("hexadecimal", i));
                    }
                    hex.clear();
                }
            }
        } else {
            for skip in 0..2 {
                let run: Option<Vec<u8>> = h.as_bytes()[skip.min(h.len())..]
                    .chunks_exact(2)
                    .map(|c| std::str::from_utf8(c).ok().and_then(|c| u8::from_str_radix(c, 16).ok()))
                    .collect();
                if let Some(i) = run.and_then(|r| hit(&r)) {
                    res = Some(("hexadecimal run", i));
                }
            }
        }
    };
    let mut start = 0;
    for i in 0..=text.len() {
        let sign = i == start && i + 1 < text.len() && text[i] == b'-' && text[i + 1].is_ascii_digit();
        let word = i < text.len() && (text[i].is_ascii_alphanumeric() || text[i] == b'_' || sign);
        if !word {
            tok(&text[start..i], &mut dec, &mut hex);
            start = i + 1;
        }
    }
    tok(b"zz", &mut dec, &mut hex);
    if res.is_some() {
        return res;
    }
    // Base64: nine bytes of any alignment are twelve characters
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (i, w) in secret.windows(9).enumerate() {
        let mut s = [0u8; 12];
        for k in 0..3 {
            let n = (w[3 * k] as u32) << 16 | (w[3 * k + 1] as u32) << 8 | w[3 * k + 2] as u32;
            for j in 0..4 {
                s[4 * k + j] = A[(n >> (18 - 6 * j)) as usize & 63];
            }
        }
        let url = s.map(|c| match c {
            b'+' => b'-',
            b'/' => b'_',
            c => c,
        });
        if text.windows(12).any(|t| t == s || t == url) {
            return Some(("Base64", i));
        }
    }
    None
}

fn self_test() -> bool {
    let s: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(37) ^ 0xA5).collect();
    let hex: String = s.iter().map(|b| format!("{:02x}", b)).collect();
    let texts = [
        format!("{:?}", s),
        format!("Layer {{ a: {:#?} }}", s),
        format!("{:x?}", s),
        format!("{:02X?}", s),
        hex.clone(),
        format!("key=a{}", hex),
        s.iter().map(|b| format!("{:02x}:", b)).collect(),
        s.iter().map(|b| format!("0x{:02x}, ", b)).collect(),
        s[5..14].iter().map(|b| format!("{} ", *b as i8)).collect::<String>() + "end",
    ];
    texts.iter().all(|t| discloses(t.as_bytes(), &s).is_some())
        && discloses(&s[3..], &s).is_some()
        && discloses(b"nothing [1, 2, 3, 4, 5, 6, 7, 8, 9] 0123456789abcdef", &s).is_none()
}

thread_local! {
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = LOG.try_with(|l| {
            let mut l = l.borrow_mut();
            if l.len() < 1 << 20 {
                l.push_str(&format!("{} {}\n", r.target(), r.args()));
            }
        });
    }
    fn flush(&self) {}
}

static LOGGER: Log = Log;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u8, Payload),
    Typed(u8, Val),
    FailingWrite(u8, u16),
    /// A message of the peer with the next number, or a later one, and whether the typed read gets it.
    Read(u8, Payload, bool, bool),
    /// A typed value, its format.
    ReadTyped(u8, Val, u8),
    /// The last message again.
    Again(u8),
    Noise(u8, Payload),
    /// A user message with one bit changed.
    Changed(u8, u32),
    /// Sealed with another key.
    Foreign(u8),
    Clear(u8, u8, u8),
    PeerConnect(u8),
    PeerAck(u8),
    Connect(u8),
    Ack(u8),
    Clone(u8),
    Drain(u8),
    Config(u8, Cfg),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    expect: bool,
    stage: Stage,
    seed: u64,
    /// The layer draws its identity itself (complete mode).
    drawn: bool,
    ops: Vec<Op>,
}

/// What the layer draws: the identity seed if it was not given, and the ephemeral private key.
fn draws(seed: u64) -> [[u8; 32]; 2] {
    [sha256(&[&b"ephemeral"[..], &seed.to_be_bytes()].concat()), sha256(&[&b"identity"[..], &seed.to_be_bytes()].concat())]
}

/// The secrets of the case.
fn secrets(c: &Case, epk: Option<&SessionKey>) -> Vec<(&'static str, Vec<u8>)> {
    let peer = Peer::new(c.seed ^ 0x22, false);
    let identity = |own: &[u8; 32]| {
        let wide = ring::digest::digest(&ring::digest::SHA512, own);
        [("the identity seed", own.to_vec()), ("the expanded identity key", wide.as_ref().to_vec())]
    };
    let ephemeral = |sk: &[u8; 32]| {
        [
            ("the ephemeral private key", sk.to_vec()),
            ("the shared secret", x25519(sk, &peer.epk).to_vec()),
            ("the session key", SessionKey::derive(sk, &peer.epk).0.to_vec()),
        ]
    };
    let d = draws(c.seed);
    let mut v = ephemeral(&d[0]).to_vec();
    if c.drawn {
        // whichever is drawn first
        v.extend(ephemeral(&d[1]));
        v.extend(identity(&d[0]));
        v.extend(identity(&d[1]));
    } else {
        v.extend(identity(&own_seed(c.seed, 1)));
    }
    if let Some(k) = epk {
        v.push(("the session key", k.0.to_vec()));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|(_, b)| seen.insert(b.clone()));
    v
}

fn texts_of(l: &Layer) -> String {
    let all = match l {
        Layer::Min(l, _) => formats(l),
        Layer::Full(l) => formats(l),
    };
    all.join("\n")
}

/// In all forms that a format can ask for, each once.
fn formats<T: std::fmt::Debug>(l: &T) -> Vec<String> {
    let mut all = vec![
        format!("{:?}", l),
        format!("{:#?}", l),
        format!("{:+?}", l),
        format!("{:x?}", l),
        format!("{:#X?}", l),
        format!("{:04?}", l),
        format!("{:-<9.9?}", l),
        format!("{:.3?}", l),
    ];
    all.sort();
    all.dedup();
    all
}

/// All that was printed: what, text.
fn histories(c: &Case, look: &mut dyn FnMut(&str, &str, Option<&SessionKey>) -> Result<(), String>, obs: &mut Obs) -> Result<(), String> {
    LOG.with(|l| l.borrow_mut().clear());
    entropy::set(c.seed);
    entropy::push_fixed(&draws(c.seed).concat());
    let peer = Peer::new(c.seed ^ 0x22, c.mode == Mode::Complete);
    let start = if c.drawn && c.mode == Mode::Complete {
        let expected = (c.expect && c.stage != Stage::EarlyAck).then(|| peer.id.pk().to_vec());
        Layer::create_random(c.cfg.get(), expected)
            .map_err(|e| e.to_string())
            .and_then(|l| advance(l, c.stage, c.seed, peer))
    } else {
        solo_with(c.mode, &c.cfg, c.expect, c.stage, c.seed, peer)
    };
    let Solo { layer, mut peer, own, .. } = match start {
        Ok(s) => s,
        Err(e) => return look("the negotiation", &e, None),
    };
    let _ = own;
    if c.drawn {
        obs.label(if entropy::served() <= 64 { "the layer drew its identity" } else { "more was drawn than is looked for" });
    }
    let mut ls = vec![layer];
    let mut number = 0u64;
    let mut last: Option<Vec<u8>> = None;
    for (i, op) in [None].into_iter().chain(c.ops.iter().map(Some)).enumerate() {
        let n = ls.len();
        let mut said = String::new();
        let mut say = |r: Option<String>| said.push_str(&r.unwrap_or_default());
        fn err<T>(r: R<T>) -> Option<String> {
            r.err().map(|e| e.to_string())
        }
        let mut at = 0;
        if let Some(op) = op {
            let k = match op {
                Op::Write(k, _) | Op::Typed(k, _) | Op::FailingWrite(k, _) | Op::Read(k, ..) | Op::ReadTyped(k, ..) | Op::Again(k)
                | Op::Noise(k, _) | Op::Changed(k, _) | Op::Foreign(k) | Op::Clear(k, ..) | Op::PeerConnect(k) | Op::PeerAck(k)
                | Op::Connect(k) | Op::Ack(k) | Op::Clone(k) | Op::Drain(k) | Op::Config(k, _) => *k as usize % n,
            };
            at = k;
            let l = &mut ls[k];
            match op {
                Op::Write(_, p) => say(err(l.write(&p.bytes()))),
                Op::Typed(_, v) => {
                    if let Layer::Full(l) = l {
                        let mut w = std::io::BufWriter::new(Vec::new());
                        say(err(catch(|| l.write(v, &mut w))));
                    }
                }
                Op::FailingWrite(_, a) => say(err(l.write_to(&[7; 300], &mut Sink::failing(*a as usize % 420, 1 + (*a / 420) as u8)))),
                Op::Read(_, p, gap, typed) => {
                    number += 1 + u64::from(*gap);
                    if peer.key.is_some() {
                        let m = peer.user(number - 1, Some(&p.bytes()));
                        match l {
                            Layer::Full(l) if *typed => say(err(catch(|| l.read::<Val>(&m)))),
                            l => say(err(l.read(&m))),
                        }
                        last = Some(m);
                    }
                }
                Op::ReadTyped(_, v, f) => {
                    number += 1;
                    if peer.key.is_some() {
                        let m = peer.user(number - 1, Some(&values::encode(v, 2 + f % 3)));
                        if let Layer::Full(l) = l {
                            say(match f / 3 % 3 {
                                0 => err(catch(|| l.read::<Val>(&m))),
                                1 => err(catch(|| l.read::<u32>(&m))),
                                _ => err(catch(|| l.read::<String>(&m))),
                            });
                        }
                        last = Some(m);
                    }
                }
                Op::Again(_) => {
                    if let Some(m) = &last {
                        say(err(l.read(m)));
                    }
                }
                Op::Noise(_, p) => say(err(l.read(&p.bytes()))),
                Op::Changed(_, bit) => {
                    if peer.key.is_some() {
                        let mut m = peer.user(number, Some(b"some text"));
                        let b = *bit as usize % (m.len() * 8);
                        m[b / 8] ^= 1 << (b % 8);
                        say(err(l.read(&m)));
                    }
                }
                Op::Foreign(_) => {
                    let mut p = Peer::new(c.seed ^ 0x99, c.mode == Mode::Complete);
                    p.see_epk(peer.epk);
                    say(err(l.read(&p.user(0, Some(b"x")))));
                }
                Op::Clear(_, t, cut) => {
                    let mut m = match t % 3 {
                        0 => wire::user_body(0, b"abc"),
                        1 => wire::connect_body(&peer.epk, &peer.id.pk(), b"abc"),
                        _ => wire::ack_body(&[5; 32], b"abc"),
                    };
                    m.truncate(m.len().saturating_sub(*cut as usize));
                    say(err(l.read(&m)));
                }
                Op::PeerConnect(_) => say(err(l.read(&peer.connect(Some(b"hi"))))),
                Op::PeerAck(_) => {
                    if peer.remote_epk.is_some() {
                        say(err(l.read(&peer.ack(None))));
                    }
                }
                Op::Connect(_) => match l.connect(None) {
                    Ok(m) => {
                        if let Some(e) = m.get(18..50) {
                            peer.see_epk(e.try_into().unwrap());
                        }
                    }
                    Err(e) => say(Some(e.to_string())),
                },
                Op::Ack(_) => say(err(l.ack(None))),
                Op::Clone(_) => match l.try_clone() {
                    Ok(x) if n < 4 => {
                        obs.label("clone");
                        ls.push(x);
                        at = n;
                    }
                    Ok(_) => {}
                    Err(e) => say(Some(e.to_string())),
                },
                Op::Drain(_) => {
                    say(err(l.drain()));
                    say(err(l.take()));
                }
                Op::Config(_, cfg) => say(err(l.change_config(cfg.get()))),
            }
        }
        if !said.is_empty() {
            obs.label("an error was printed");
        }
        if peer.key.is_some() {
            obs.nontrivial();
        }
        let key = peer.key.as_ref();
        let when = match op {
            None => "the negotiation".to_string(),
            Some(op) => format!("step {} {:?}", i, op).chars().take(100).collect(),
        };
        look(&format!("the error of {}", when), &said, key)?;
        look(&format!("the layer printed after {}", when), &texts_of(&ls[at]), key)?;
        let logged = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if !logged.is_empty() {
            obs.label("logged");
        }
        look(&format!("what was logged until {}", when), &logged, key)?;
    }
    Ok(())
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut n = 0u64;
    let r = histories(
        c,
        &mut |what, text, key| {
            n += text.len() as u64 / 100;
            for (name, s) in secrets_cached(c, key).iter() {
                if let Some((how, i)) = discloses(text.as_bytes(), s) {
                    return Err(format!("{} holds {} ({}, from byte {})", what, name, how, i));
                }
            }
            Ok(())
        },
        obs,
    );
    obs.extra += n;
    r
}

thread_local! {
    #[allow(clippy::type_complexity)]
    static CACHE: RefCell<(u64, bool, Option<[u8; 48]>, std::rc::Rc<Vec<(&'static str, Vec<u8>)>>)> =
        RefCell::new((u64::MAX, false, None, Default::default()));
}

fn secrets_cached(c: &Case, key: Option<&SessionKey>) -> std::rc::Rc<Vec<(&'static str, Vec<u8>)>> {
    CACHE.with(|m| {
        let mut m = m.borrow_mut();
        let k = key.map(|k| k.0);
        if m.0 != c.seed || m.1 != c.drawn || m.2 != k || m.3.is_empty() {
            *m = (c.seed, c.drawn, k, std::rc::Rc::new(secrets(c, key)));
        }
        m.3.clone()
    })
}

/// The histories on standard input, with nothing said by this process itself.
pub fn quiet_main() -> i32 {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 2;
    }
    let Ok(cs) = serde_json::from_str::<Vec<Case>>(&s) else { return 2 };
    for c in &cs {
        let _ = histories(c, &mut |_, _, _| Ok(()), &mut Obs::default());
        entropy::off();
    }
    0
}

fn streams(cs: &Vec<Case>, obs: &mut Obs) -> Result<(), String> {
    use std::process::{Command, Stdio};
    let run = || -> Option<Vec<u8>> {
        let mut p = Command::new(std::env::current_exe().ok()?)
            .arg("c22-quiet")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .ok()?;
        p.stdin.take()?.write_all(serde_json::to_string(cs).ok()?.as_bytes()).ok()?;
        let o = p.wait_with_output().ok()?;
        Some([o.stdout, o.stderr].concat())
    };
    let Some(out) = run() else {
        obs.label("no process");
        return Ok(());
    };
    obs.extra += cs.len() as u64;
    if cs.iter().any(|c| !matches!(c.stage, Stage::Fresh)) {
        obs.nontrivial();
    }
    if !out.is_empty() {
        obs.label("something was printed");
    }
    for c in cs {
        for (name, s) in secrets(c, None) {
            if let Some((how, i)) = discloses(&out, &s) {
                return Err(format!("standard output or error holds {} ({}, from byte {})", name, how, i));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeds {
    seed: u64,
    how: u8,
}

fn seeds(c: &Seeds, obs: &mut Obs) -> Result<(), String> {
    LOG.with(|l| l.borrow_mut().clear());
    let b = sha256(&c.seed.to_be_bytes());
    let s = match c.how % 4 {
        0 => Seed32::new(b),
        1 => Seed32::new(b).clone(),
        2 => {
            let mut s = Seed32::default();
            s.as_mut().copy_from_slice(&b);
            s
        }
        _ => {
            entropy::set(1);
            entropy::push_fixed(&b);
            Seed32::random()
        }
    };
    obs.nontrivial();
    let b = s.as_ref().to_vec();
    let some = Some(&s);
    let list = vec![s.clone(), s.clone()];
    let logged = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let mut texts = [formats(&s), formats(&some), formats(&list)].concat();
    texts.push(logged);
    for t in texts {
        if let Some((how, i)) = discloses(t.as_bytes(), &b) {
            return Err(format!("a printed seed shows its bytes ({}, from byte {})", how, i));
        }
    }
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let k = || 0u8..4;
    prop_oneof![
        2 => (k(), small_payload()).prop_map(|(k, p)| Op::Write(k, p)),
        1 => (k(), values::val()).prop_map(|(k, v)| Op::Typed(k, v)),
        1 => (k(), any::<u16>()).prop_map(|(k, a)| Op::FailingWrite(k, a)),
        5 => (k(), small_payload(), any::<bool>(), any::<bool>()).prop_map(|(k, p, g, t)| Op::Read(k, p, g, t)),
        2 => (k(), values::val(), any::<u8>()).prop_map(|(k, v, f)| Op::ReadTyped(k, v, f)),
        2 => k().prop_map(Op::Again),
        1 => (k(), small_payload()).prop_map(|(k, p)| Op::Noise(k, p)),
        2 => (k(), any::<u32>()).prop_map(|(k, b)| Op::Changed(k, b)),
        1 => k().prop_map(Op::Foreign),
        1 => (k(), any::<u8>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(k, t, c)| Op::Clear(k, t, c)),
        1 => k().prop_map(Op::PeerConnect),
        1 => k().prop_map(Op::PeerAck),
        1 => k().prop_map(Op::Connect),
        1 => k().prop_map(Op::Ack),
        2 => k().prop_map(Op::Clone),
        1 => k().prop_map(Op::Drain),
        1 => (k(), any_cfg()).prop_map(|(k, c)| Op::Config(k, c)),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (
        any_mode(),
        any_cfg(),
        any::<bool>(),
        prop_oneof![2 => Just(Stage::Done), 3 => proptest::sample::select(STAGES.to_vec())],
        any::<u64>(),
        any::<bool>(),
        proptest::collection::vec(op(), 0..10),
    )
        .prop_map(|(mode, cfg, expect, stage, seed, drawn, ops)| Case {
            mode,
            cfg,
            expect,
            stage,
            seed,
            drawn: drawn && mode == Mode::Complete,
            ops,
        })
}

pub fn run(ctx: &Ctx) -> i32 {
    if log::set_logger(&LOGGER).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    } else {
        ctx.error("no logger could be installed".into());
    }
    if !self_test() {
        ctx.error("the search for secrets in texts does not work".into());
    }
    ctx.prop("seeds", ctx.pick(2_000, 20_000), || (any::<u64>(), any::<u8>()).prop_map(|(seed, how)| Seeds { seed, how }), seeds);
    ctx.prop("histories", ctx.pick(6_000, 200_000), case, run_case);
    ctx.prop("streams", ctx.pick(300, 10_000), || proptest::collection::vec(case(), 1..12), streams);
    ctx.finish(RULE, "exploration", &["encodings other than those named are not recognised"])
}
