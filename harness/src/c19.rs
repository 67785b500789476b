//! C19: secrets are erased from memory when dropped.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::{sha256, SessionKey};
use crate::scan;
use crate::setup::{Stage, HELD_NONCE, STAGES};
use crate::sut::{self, Mode};
use crate::values::Val;
use crate::wire;
use pkstl::{MinimalSecureLayer, SecureLayer, Seed32};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufWriter;
use std::mem::MaybeUninit;

const RULE: &str = "layers and seeds live in memory of the check's own; the program's allocator looks at every block freed \
 while pkstl runs. Generated histories bring layers (both modes, any state of the negotiation, clones) to their drop; the \
 place of the dropped value, all blocks freed meanwhile and all blocks allocated and never freed must contain no 24 \
 consecutive bytes of the identity seed or the session key, the places of a dropped seed and of the key in a dropped layer no eight of them. The session key is computed by the \
 reference from the private ephemeral key. Non-trivial: the session key was seen in the layer's memory before the drop, \
 or the seed's bytes in the seed's.";

/// So many consecutive bytes of a secret of 32 are a copy of it. Fewer may be what the stack held where a value
/// with padding or an unused variant was moved from.
const RUN: usize = 24;

const KEY: u8 = 1;
const SEED: u8 = 2;

fn name(id: u8) -> &'static str {
    match id {
        KEY => "the session's symmetric key",
        _ => "the seed",
    }
}

/// Memory a value lives in, looked at after the value was dropped.
struct Place<T> {
    mem: Box<MaybeUninit<T>>,
    full: bool,
}

impl<T> Place<T> {
    fn new(t: T) -> Place<T> {
        let mut mem = Box::new(MaybeUninit::<T>::zeroed());
        unsafe { mem.as_mut_ptr().write(t) };
        Place { mem, full: true }
    }
    fn get(&mut self) -> &mut T {
        assert!(self.full);
        unsafe { self.mem.assume_init_mut() }
    }
    fn find(&self, run: usize) -> Option<(u8, usize)> {
        scan::find(self.mem.as_ptr() as *const u8, std::mem::size_of::<T>(), run)
    }
    fn find_in(&self, at: usize, len: usize) -> Option<(u8, usize)> {
        let size = std::mem::size_of::<T>();
        scan::find((self.mem.as_ptr() as *const u8).wrapping_add(at), len.min(size.saturating_sub(at)), 8)
    }
    fn drop_here(&mut self) {
        assert!(self.full);
        self.full = false;
        scan::on(|| unsafe { std::ptr::drop_in_place(self.mem.as_mut_ptr()) });
    }
}

impl<T> Drop for Place<T> {
    fn drop(&mut self) {
        if self.full {
            unsafe { std::ptr::drop_in_place(self.mem.as_mut_ptr()) };
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u8, Payload),
    Typed(u8, Val),
    /// A message of the peer with the next number, or a later one.
    Read(u8, Payload, bool),
    Clone(u8),
    Drop(u8),
    Garbage(u8, u8),
    Config(u8, Cfg),
    /// A sink that fails during a user message.
    FailingWrite(u8, u16),
    Connect(u8),
    Ack(u8),
    Drain(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    expect: bool,
    stage: Stage,
    seed: u64,
    ops: Vec<Op>,
}

enum L {
    Min(Place<MinimalSecureLayer>),
    Full(Place<SecureLayer>),
}

macro_rules! both {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            L::Min($x) => $e,
            L::Full($x) => $e,
        }
    };
}

impl L {
    fn connect(&mut self, pk: &[u8]) -> Option<Vec<u8>> {
        match self {
            L::Min(l) => scan::on(|| sut::catch(|| l.get().create_connect_message(pk, Some(b"d")))).ok(),
            L::Full(l) => scan::on(|| {
                let mut w = BufWriter::new(Vec::new());
                sut::catch(|| l.get().write_connect_msg_bin(Some(b"d"), &mut w)).ok()?;
                w.into_inner().ok()
            }),
        }
    }
    fn ack(&mut self) -> bool {
        match self {
            L::Min(l) => scan::on(|| sut::catch(|| l.get().create_ack_message(None))).is_ok(),
            L::Full(l) => scan::on(|| {
                let mut w = BufWriter::new(Vec::new());
                sut::catch(|| l.get().write_ack_msg_bin(None, &mut w)).is_ok()
            }),
        }
    }
    fn read(&mut self, m: &[u8]) -> bool {
        match self {
            L::Min(l) => scan::on(|| sut::catch(|| l.get().read(m)).map(drop)).is_ok(),
            L::Full(l) => scan::on(|| sut::catch(|| l.get().read_bin(m)).map(drop)).is_ok(),
        }
    }
    fn write<W: std::io::Write>(&mut self, d: &[u8], to: W, cap: usize) {
        let mut w = BufWriter::with_capacity(cap, to);
        let _ = match self {
            L::Min(l) => scan::on(|| sut::catch(|| l.get().write_message(d, &mut w))),
            L::Full(l) => scan::on(|| sut::catch(|| l.get().write_bin(d, &mut w))),
        };
        // what it buffered is a message, and is dropped unwritten
        let _ = w.into_parts();
    }
}

/// What was left where.
fn complain(after: &str) -> Result<(), String> {
    match scan::hit() {
        Some((id, len, at)) => {
            Err(format!("{}: {} was in freed heap memory (a block of {} bytes, at {})", after, name(id), len, at))
        }
        None => Ok(()),
    }
}

fn drop_and_look(l: &mut L, after: &str, obs: &mut Obs) -> Result<(), String> {
    let whole = both!(l, p => p.find(32));
    if matches!(whole, Some((KEY, _))) {
        obs.nontrivial();
        obs.label("the key was there before");
    }
    both!(l, p => p.drop_here());
    if let Some((_, at)) = whole {
        // where the whole secret was, not a part of it may be
        if let Some((id, more)) = both!(l, p => p.find_in(at, 32)) {
            return Err(format!("{}: a part of {} is still in the dropped layer's memory, at {}", after, name(id), at + more));
        }
    }
    if let Some((id, at)) = both!(l, p => p.find(RUN)) {
        return Err(format!("{}: {} is still in the dropped layer's memory, at {}", after, name(id), at));
    }
    complain(after)
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    scan::reset();
    scan::only_runs_of(RUN);
    let r = histories(c, obs);
    let (bytes, _) = scan::scanned();
    obs.extra += bytes / 1024;
    scan::reset();
    r
}

fn histories(c: &Case, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let sk = sha256(&[&b"ephemeral"[..], &c.seed.to_be_bytes()].concat());
    let seed = sha256(&[&b"identity seed"[..], &c.seed.to_be_bytes()].concat());
    entropy::push_fixed(&sk);
    let mut peer = Peer::new(c.seed ^ 0x19, c.mode == Mode::Complete);
    let key = SessionKey::derive(&sk, &peer.epk);
    scan::secret(KEY, &key.0[..32]);
    scan::secret(SEED, &seed);
    let expected = (c.expect && c.stage != Stage::EarlyAck).then(|| peer.id.pk().to_vec());
    let own = crate::refcrypto::Identity::new(seed);
    let pk = own.pk();
    let first = match c.mode {
        Mode::Minimal => sut::catch(|| MinimalSecureLayer::create(c.cfg.get(), expected)).map(|l| L::Min(Place::new(l))),
        Mode::Complete => scan::on(|| sut::catch(|| SecureLayer::create(c.cfg.get(), Some(Seed32::new(seed)), expected)))
            .map(|l| L::Full(Place::new(l))),
    };
    let Ok(first) = first else { return Ok(()) };
    let mut ls: Vec<Option<L>> = vec![Some(first)];
    complain("creation")?;
    // the negotiation, up to the stage
    let l = ls[0].as_mut().unwrap();
    use Stage::*;
    if !matches!(c.stage, Fresh | Heard) {
        let Some(m) = l.connect(&pk) else { return Ok(()) };
        if let Some(e) = m.get(18..50) {
            peer.see_epk(e.try_into().unwrap());
        }
        if peer.key.map(|k| k.0) != Some(key.0) {
            // keys are drawn in another way: the peer's derivation counts
            let Some(k) = peer.key else { return Ok(()) };
            scan::secret(KEY, &k.0[..32]);
            obs.label("key drawn in another way");
        }
    }
    if !matches!(c.stage, Fresh | Sent | EarlyAck | Failed) {
        l.read(&peer.connect(Some(b"hello")));
        complain("reading a CONNECT")?;
    }
    if matches!(c.stage, Waiting | Holding | Done | Cloned) {
        l.ack();
    }
    if matches!(c.stage, Acked | Done | Cloned | EarlyAck) {
        l.read(&peer.ack(None));
        complain("reading an ACK")?;
    }
    if c.stage == Holding {
        l.read(&peer.user(HELD_NONCE, Some(b"held")));
    }
    if c.stage == Failed {
        l.write(b"too early", Vec::new(), 64);
    }
    complain("the negotiation")?;
    let mut number = 0u64;
    let mut ops = c.ops.clone();
    if c.stage == Cloned {
        ops.insert(0, Op::Clone(0));
    }
    for (i, op) in ops.iter().enumerate() {
        let n = ls.len();
        let k = match op {
            Op::Write(k, _) | Op::Typed(k, _) | Op::Read(k, ..) | Op::Clone(k) | Op::Drop(k) | Op::Garbage(k, _)
            | Op::Config(k, _) | Op::FailingWrite(k, _) | Op::Connect(k) | Op::Ack(k) | Op::Drain(k) => *k as usize % n,
        };
        let after = format!("step {} {:?}", i, op);
        let Some(l) = ls[k].as_mut() else { continue };
        match op {
            Op::Write(_, p) => l.write(&p.bytes(), Vec::new(), 8192),
            Op::FailingWrite(_, at) => l.write(&[7; 300], crate::sink::Sink::failing(*at as usize % 400, (*at / 400) as u8), 16),
            Op::Typed(_, v) => {
                if let L::Full(p) = l {
                    let mut w = BufWriter::new(Vec::new());
                    let _ = scan::on(|| sut::catch(|| p.get().write(v, &mut w)));
                }
            }
            Op::Read(_, p, gap) => {
                number += 1 + u64::from(*gap);
                if peer.key.is_some() {
                    let m = peer.user(number - 1, Some(&p.bytes()));
                    l.read(&m);
                }
            }
            Op::Clone(_) => {
                if n >= 6 {
                    continue;
                }
                let new = match l {
                    L::Min(p) => scan::on(|| sut::catch(|| p.get().try_clone())).ok().map(|x| L::Min(Place::new(x))),
                    L::Full(p) => scan::on(|| sut::catch(|| p.get().try_clone())).ok().map(|x| L::Full(Place::new(x))),
                };
                if let Some(new) = new {
                    ls.push(Some(new));
                    obs.label("clone");
                }
            }
            Op::Drop(_) => {
                let mut l = ls[k].take().unwrap();
                drop_and_look(&mut l, &after, obs)?;
            }
            Op::Garbage(_, g) => {
                let noise: Vec<u8> = match g % 3 {
                    0 => vec![*g; 40],
                    1 => wire::connect_body(&[*g; 32], &[1; 32], b"x"),
                    _ => vec![],
                };
                l.read(&noise);
            }
            Op::Config(_, cfg) => {
                let _ = scan::on(|| sut::catch(|| both!(l, p => p.get().change_config(cfg.get()))));
            }
            Op::Connect(_) => {
                if let Some(e) = l.connect(&pk).as_ref().and_then(|m| m.get(18..50)) {
                    peer.see_epk(e.try_into().unwrap());
                }
            }
            Op::Ack(_) => {
                l.ack();
            }
            Op::Drain(_) => {
                if let L::Min(p) = l {
                    let _ = scan::on(|| sut::catch(|| p.get().drain_tmp_stack_user_msgs()).map(drop));
                    let _ = scan::on(|| sut::catch(|| p.get().take_ack_msg_recv_too_early()).map(drop));
                }
            }
        }
        complain(&after)?;
    }
    for k in 0..ls.len() {
        if let Some(mut l) = ls[k].take() {
            drop_and_look(&mut l, &format!("dropping layer {}", k), obs)?;
        }
    }
    if let Some((id, len, at)) = scan::find_live() {
        return Err(format!("all layers dropped: {} is still in a block never freed ({} bytes, at {})", name(id), len, at));
    }
    if let Some((id, _)) = scan::find_in_variables() {
        return Err(format!("all layers dropped: {} is still in a variable of the process", name(id)));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum How {
    InPlace,
    Boxed,
    InVec,
    Assigned,
    Optional,
    Cloned,
    Written,
    Random,
    Unwinding,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeds {
    seed: [u8; 32],
    how: How,
    n: u8,
}

fn seeds(c: &Seeds, obs: &mut Obs) -> Result<(), String> {
    scan::reset();
    let r = seeds_inner(c, obs);
    scan::reset();
    r
}

fn seeds_inner(c: &Seeds, obs: &mut Obs) -> Result<(), String> {
    scan::secret(SEED, &c.seed);
    let what = format!("{:?}", c.how);
    let mut look = |p: &mut Place<Seed32>| -> Result<(), String> {
        if p.find(8).is_some() {
            obs.nontrivial();
        }
        p.drop_here();
        match p.find(8) {
            Some((_, at)) => Err(format!("{}: bytes of a dropped seed are still in its memory, at {}", what, at)),
            None => Ok(()),
        }
    };
    match c.how {
        How::InPlace => look(&mut Place::new(Seed32::new(c.seed)))?,
        How::Cloned => {
            let mut a = Place::new(Seed32::new(c.seed));
            let b = a.get().clone();
            look(&mut a)?;
            let mut b = Place::new(b);
            look(&mut b)?;
        }
        How::Written => {
            let mut a = Place::new(Seed32::default());
            a.get().as_mut().copy_from_slice(&c.seed);
            look(&mut a)?;
        }
        How::Random => {
            entropy::set(1);
            entropy::push_fixed(&c.seed);
            look(&mut Place::new(Seed32::random()))?;
        }
        How::Assigned => {
            // the old value is dropped where it stands
            let mut a = Place::new(Seed32::new(c.seed));
            let other = sha256(&c.seed);
            *a.get() = Seed32::new(other);
            if a.find(8).is_some() || a.get().as_ref() != other {
                return Err("an overwritten seed is still there".into());
            }
        }
        How::Optional => {
            let mut a = Place::new(Some(Seed32::new(c.seed)));
            if a.find(8).is_some() {
                obs.nontrivial();
            }
            a.drop_here();
            if a.find(8).is_some() {
                return Err("an optional seed left its bytes".into());
            }
        }
        How::Boxed => {
            let b = Box::new(Seed32::new(c.seed));
            obs.nontrivial();
            scan::on(|| drop(b));
        }
        How::InVec => {
            let v: Vec<Seed32> = (0..c.n).map(|_| Seed32::new(c.seed)).collect();
            obs.nontrivial();
            scan::on(|| drop(v));
        }
        How::Unwinding => {
            let b = Box::new(Seed32::new(c.seed));
            obs.nontrivial();
            scan::on(|| {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _b = b;
                    std::panic::resume_unwind(Box::new(0u8));
                }));
            });
        }
    }
    complain(&what)?;
    Ok(())
}

/// The seeds inside: what the key agreement derives, before it becomes the key.
#[cfg(pkstl_verif)]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inner {
    seed: u64,
    /// Which type.
    what: u8,
    how: u8,
}

#[cfg(pkstl_verif)]
fn inner(c: &Inner, obs: &mut Obs) -> Result<(), String> {
    use pkstl::verif::{Seed48, Seed64, SharedSecret};
    fn one<T: AsMut<[u8]>>(mut t: T, c: &Inner, name: &str, obs: &mut Obs) -> Result<(), String> {
        scan::reset();
        let a = sha256(&c.seed.to_be_bytes());
        let b = sha256(&a);
        let bytes = [a, b].concat();
        let n = t.as_mut().len().min(64);
        t.as_mut()[..n].copy_from_slice(&bytes[..n]);
        scan::secret(SEED, &bytes[..n]);
        obs.nontrivial();
        let mut r = Ok(());
        match c.how % 3 {
            0 => {
                let mut p = Place::new(t);
                p.drop_here();
                if let Some((_, at)) = p.find(8) {
                    r = Err(format!("a dropped {} still holds its bytes, at {}", name, at));
                }
            }
            1 => {
                let b = Box::new(t);
                scan::on(|| drop(b));
            }
            _ => {
                let mut p = Place::new(Some(t));
                scan::on(|| *p.get() = None);
                if p.find(8).is_some() {
                    r = Err(format!("an overwritten optional {} left its bytes", name));
                }
            }
        }
        let r = r.and_then(|_| complain(name));
        scan::reset();
        r
    }
    match c.what % 6 {
        0 => one(Seed48::default(), c, "seed of 48 bytes", obs),
        1 => one(Seed64::default(), c, "seed of 64 bytes", obs),
        2 => one(SharedSecret::B32(Seed32::default()), c, "shared secret of 32 bytes", obs),
        3 => one(SharedSecret::B48(Seed48::default()), c, "shared secret of 48 bytes", obs),
        4 => one(SharedSecret::B64(Seed64::default()), c, "shared secret of 64 bytes", obs),
        _ => one(Seed32::default(), c, "seed of 32 bytes", obs),
    }
}

fn op() -> impl Strategy<Value = Op> {
    let k = || 0u8..6;
    prop_oneof![
        4 => (k(), any_payload(9000)).prop_map(|(k, p)| Op::Write(k, p)),
        4 => (k(), small_payload(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(k, p, g)| Op::Read(k, p, g)),
        3 => k().prop_map(Op::Clone),
        2 => k().prop_map(Op::Drop),
        1 => (k(), crate::values::val()).prop_map(|(k, v)| Op::Typed(k, v)),
        1 => (k(), any::<u8>()).prop_map(|(k, g)| Op::Garbage(k, g)),
        1 => (k(), any_cfg()).prop_map(|(k, c)| Op::Config(k, c)),
        1 => (k(), any::<u16>()).prop_map(|(k, a)| Op::FailingWrite(k, a)),
        1 => k().prop_map(Op::Connect),
        1 => k().prop_map(Op::Ack),
        1 => k().prop_map(Op::Drain),
    ]
}

static STATIC: std::sync::Mutex<[u8; 60]> = std::sync::Mutex::new([0; 60]);
thread_local! {
    static LOCAL: std::cell::Cell<[u8; 60]> = const { std::cell::Cell::new([0; 60]) };
}

/// The search finds what it is meant to find.
fn self_test() -> bool {
    scan::reset();
    let s = sha256(b"scanner self-test");
    scan::secret(9, &s);
    scan::only_runs_of(RUN);
    let v = s[5..29].to_vec();
    let short = s[5..28].to_vec();
    let short = scan::on(|| drop(short)) == () && scan::hit().is_none();
    let leak: Box<[u8; 40]> = scan::on(|| {
        drop(v);
        let mut b = Box::new([0u8; 40]);
        b[3..27].copy_from_slice(&s[8..32]);
        b
    });
    let ok = short && scan::hit().map(|h| h.0) == Some(9) && scan::find_live().map(|h| h.0) == Some(9);
    drop(leak);
    let ok = ok && scan::find_live().is_none() && scan::find_in_variables().is_none();
    // in a variable (which could be left out if nobody else were to see it)
    std::hint::black_box(&STATIC);
    LOCAL.with(|l| {
        std::hint::black_box(l);
    });
    let mut held = *STATIC.lock().unwrap();
    held[5..37].copy_from_slice(&s);
    *STATIC.lock().unwrap() = held;
    let ok = ok && scan::find_in_variables().map(|h| h.0) == Some(9);
    *STATIC.lock().unwrap() = [0; 60];
    LOCAL.with(|l| l.set(held));
    let ok = ok && scan::find_in_variables().map(|h| h.0) == Some(9);
    LOCAL.with(|l| l.set([0; 60]));
    let ok = ok && scan::find_in_variables().is_none();
    scan::reset();
    ok
}

pub fn run(ctx: &Ctx) -> i32 {
    if !self_test() {
        ctx.error("the memory scanner does not work".into());
    }
    if std::env::var_os("PKSTL_VERBOSE").is_some() {
        eprintln!("bytes in variables: {:?}", scan::variables_size());
    }
    let mut cases = vec![];
    for stage in STAGES {
        for mode in [Mode::Minimal, Mode::Complete] {
            for expect in [false, true] {
                for v in 0..4u8 {
                    let p = || Payload::new(50, 1, v as u64);
                    let ops = match v {
                        0 => vec![],
                        1 => vec![Op::Write(0, p()), Op::Read(0, p(), false)],
                        2 => vec![Op::Clone(0), Op::Clone(1), Op::Drop(0), Op::Write(1, p()), Op::Read(2, p(), true)],
                        _ => vec![Op::Garbage(0, 0), Op::Clone(0), Op::Drop(0)],
                    };
                    cases.push(Case { mode, cfg: Cfg { format: 2 + v % 3, ..Cfg::default() }, expect, stage, seed: 77 + v as u64, ops });
                }
            }
        }
    }
    ctx.each("every-state", cases, run_case);
    ctx.prop(
        "histories",
        ctx.pick(15_000, 500_000),
        || {
            (
                any_mode(),
                any_cfg(),
                any::<bool>(),
                prop_oneof![3 => Just(Stage::Done), 2 => proptest::sample::select(STAGES.to_vec())],
                any::<u64>(),
                proptest::collection::vec(op(), 0..14),
            )
                .prop_map(|(mode, cfg, expect, stage, seed, ops)| Case { mode, cfg, expect, stage, seed, ops })
        },
        run_case,
    );
    ctx.prop(
        "seeds",
        ctx.pick(10_000, 200_000),
        || {
            use How::*;
            (
                any::<u64>(),
                proptest::sample::select(vec![InPlace, Boxed, InVec, Assigned, Optional, Cloned, Written, Random, Unwinding]),
                1u8..5,
            )
                .prop_map(|(s, how, n)| Seeds { seed: sha256(&s.to_be_bytes()), how, n })
        },
        seeds,
    );
    #[cfg(pkstl_verif)]
    ctx.prop(
        "inner-seeds",
        ctx.pick(3_000, 50_000),
        || (any::<u64>(), 0u8..6, 0u8..3).prop_map(|(seed, what, how)| Inner { seed, what, how }),
        inner,
    );
    ctx.finish(
        RULE,
        "exploration",
        &["copies that moves leave on the stack are not looked for; the expanded Ed25519 key and the ephemeral private key inside ring are not among the secrets named"],
    )
}
