//! C16: the configuration is honoured.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::setup::own_seed;
use crate::sut::{self, Got, Layer, Mode};
use crate::values;
use crate::wire::{self, Decoded};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufWriter;

const RULE: &str = "sessions of the complete mode in which the configuration changes between messages; sizes lie at, just below \
 and just above the threshold and far from it. The data field of each emitted message, opened by the model peer, must \
 consist of stored blocks only (below the threshold) or have the length flate2 gives at the configured level (no other \
 level's length is nearer), and begin with the configured format's header when typed. Messages of the peer under other \
 configurations must still be read: receivers of every level and threshold get data of up to eleven stored blocks. Non-trivial: at least two messages under different configurations.";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data {
    len: usize,
    kind: u8,
    seed: u64,
}

impl Data {
    /// Kind 0: repeats at many distances, so that the levels give different lengths.
    fn bytes(&self) -> Vec<u8> {
        if self.kind != 0 {
            return Payload::new(self.len, self.kind, self.seed).bytes();
        }
        let mut s = self.seed;
        let mut v: Vec<u8> = Vec::with_capacity(self.len + 32);
        while v.len() < self.len {
            if v.len() > 40 && splitmix(&mut s) % 3 != 0 {
                let k = (splitmix(&mut s) % v.len() as u64) as usize;
                let l = (3 + splitmix(&mut s) % 30) as usize;
                for i in k..(k + l).min(v.len()) {
                    v.push(v[i]);
                }
                if splitmix(&mut s) % 2 == 0 {
                    v.push((splitmix(&mut s) & 15) as u8);
                }
            } else {
                for _ in 0..splitmix(&mut s) % 6 {
                    v.push((splitmix(&mut s) & 7) as u8);
                }
            }
        }
        v.truncate(self.len);
        v
    }
}

/// A threshold, possibly relative to the size of the message that follows.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Min {
    Rel(i64),
    Abs(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    /// Configuration set just before: level, threshold, format.
    cfg: Option<(u32, Min, u8)>,
    data: Data,
    typed: bool,
    /// Continue with a clone afterwards.
    clone: bool,
    /// The peer sends something too, compressed or formatted in its own way.
    incoming: Option<(Data, u8, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    seed: u64,
    first: (u32, usize, u8),
    connect: Option<Msg>,
    ack: Option<Msg>,
    user: Vec<Msg>,
}

/// Whether the whole stream is of stored blocks.
fn stored_only(z: &[u8]) -> bool {
    let mut at = 0;
    loop {
        let Some(h) = z.get(at) else { return false };
        if (h >> 1) & 3 != 0 {
            return false;
        }
        let Some(l) = z.get(at + 1..at + 5) else { return false };
        let len = u16::from_le_bytes([l[0], l[1]]) as usize;
        at += 5 + len;
        if h & 1 == 1 {
            return at <= z.len();
        }
    }
}

struct State {
    cfg: Cfg,
    cloned: bool,
}

fn typed_bytes(d: &Data, format: u8) -> Vec<u8> {
    values::encode(&d.bytes(), format)
}

fn set(l: &mut Layer, st: &mut State, m: &Msg) -> Result<(), String> {
    let Some((level, min, format)) = m.cfg else { return Ok(()) };
    // with a typed message the format decides the size
    let n = if m.typed && format >= 2 { typed_bytes(&m.data, format).len() } else { m.data.len };
    let min_size = match min {
        Min::Rel(r) => (n as i64 + r).max(0) as usize,
        Min::Abs(a) => a,
    };
    let cfg = Cfg { level, min_size, format };
    match l.change_config(cfg.get()) {
        Ok(()) => {
            st.cfg = cfg;
            Ok(())
        }
        Err(_) if st.cloned => Ok(()),
        Err(e) => Err(format!("the configuration of a layer never cloned could not be changed: {}", e)),
    }
}

/// Judges a data field.
fn judge(what: &str, field: &[u8], m: &Msg, st: &State, obs: &mut Obs) -> Result<(), String> {
    let typed = m.typed && st.cfg.format >= 2;
    let raw = m.data.bytes();
    let plain = if typed { typed_bytes(&m.data, st.cfg.format) } else { raw };
    let Some(out) = wire::inflate(field) else {
        return Err(format!("{}: the data field is no deflate stream", what));
    };
    if typed {
        if out.get(..4) != Some(&values::header(st.cfg.format)[..]) {
            return Err(format!(
                "{}: typed in format {:?}, configured is {}",
                what,
                out.get(..4),
                st.cfg.format
            ));
        }
        if values::decode::<Vec<u8>>(&out) != Some(m.data.bytes()) {
            return Err(format!("{}: the value is not what the format says", what));
        }
    } else if out != plain {
        // that is another property's
        obs.label("another payload");
        return Ok(());
    }
    let (n, t) = (plain.len(), st.cfg.min_size);
    if n < t {
        obs.label("below the threshold");
        if !stored_only(field) {
            return Err(format!("{}: {} bytes, below the threshold of {}, were compressed", what, n, t));
        }
    } else {
        obs.label(if n == t { "at the threshold" } else { "above the threshold" });
        let dist = |l: u32| (wire::deflate(&out, l).len() as i64 - field.len() as i64).abs();
        let own = dist(st.cfg.level);
        if own > 0 {
            if let Some(l) = (0..10).find(|l| dist(*l) < own) {
                return Err(format!(
                    "{}: {} bytes, threshold {}: {} bytes at level {}, {} were sent, as at level {}",
                    what,
                    n,
                    t,
                    wire::deflate(&out, st.cfg.level).len(),
                    st.cfg.level,
                    field.len(),
                    l
                ));
            }
        }
    }
    Ok(())
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let mut peer = Peer::new(c.seed ^ 0x16, true);
    if let Some(k) = crate::keypairs::now_and_then(c.seed) {
        entropy::push_fixed(&k.0);
        peer = peer.keyed(k.1);
    }
    let mut st = State {
        cfg: Cfg { level: c.first.0, min_size: c.first.1, format: c.first.2 },
        cloned: false,
    };
    macro_rules! or_skip {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(_) => {
                    obs.label("refused");
                    return Ok(());
                }
            }
        };
    }
    let mut l = or_skip!(Layer::create(Mode::Complete, st.cfg.get(), own_seed(c.seed, 1), None));
    macro_rules! emit {
        ($m:expr, $bin:ident, $typ:ident) => {{
            let Layer::Full(f) = &mut l else { unreachable!() };
            let mut w = BufWriter::new(Vec::new());
            match $m {
                None => or_skip!(sut::catch(|| f.$bin(None, &mut w))),
                Some(m) if m.typed && st.cfg.format >= 2 => {
                    let v = m.data.bytes();
                    or_skip!(sut::catch(|| f.$typ(Some(&v), &mut w)))
                }
                Some(m) => {
                    let v = m.data.bytes();
                    or_skip!(sut::catch(|| f.$bin(Some(&v), &mut w)))
                }
            }
            w.into_inner().unwrap_or_default()
        }};
    }
    if let Some(m) = &c.connect {
        set(&mut l, &mut st, m)?;
    }
    let b = emit!(&c.connect, write_connect_msg_bin, write_connect_msg);
    match wire::decode(&b, None, None) {
        Ok(Decoded::Connect { epk, data, .. }) => {
            peer.see_epk(epk);
            if let Some(m) = &c.connect {
                judge("CONNECT", &data, m, &st, obs)?;
            }
        }
        _ => return Ok(()),
    }
    or_skip!(l.read(&peer.connect(None)));
    if let Some(m) = &c.ack {
        set(&mut l, &mut st, m)?;
    }
    let b = emit!(&c.ack, write_ack_msg_bin, write_ack_msg);
    match (wire::decode(&b, None, None), &c.ack) {
        (Ok(Decoded::Ack { data, .. }), Some(m)) => judge("ACK", &data, m, &st, obs)?,
        (Ok(_), None) => {}
        _ => return Ok(()),
    }
    or_skip!(l.read(&peer.ack(None)));
    let key = peer.key.unwrap();
    let mut got = 0;
    let mut used = std::collections::HashSet::new();
    for (i, m) in c.user.iter().enumerate() {
        set(&mut l, &mut st, m)?;
        let Layer::Full(f) = &mut l else { unreachable!() };
        let mut w = BufWriter::new(Vec::new());
        let v = m.data.bytes();
        if m.typed && st.cfg.format >= 2 {
            or_skip!(sut::catch(|| f.write(&v, &mut w)));
        } else {
            or_skip!(sut::catch(|| f.write_bin(&v, &mut w)));
        }
        let b = w.into_inner().unwrap_or_default();
        match wire::decode(&b, Some(&key), None) {
            Ok(Decoded::User { data, .. }) => judge(&format!("user message {}", i), &data, m, &st, obs)?,
            _ => return Ok(()),
        }
        used.insert((st.cfg.level, st.cfg.min_size, st.cfg.format));
        if m.clone {
            if let Ok(n) = l.try_clone() {
                l = n;
                st.cloned = true;
            }
        }
        if let Some((d, how, typed)) = &m.incoming {
            let format = 2 + how % 3;
            let plain = if *typed { typed_bytes(d, format) } else { d.bytes() };
            let msg = wire::user_msg(&key, got, &wire::deflate(&plain, (how / 3 % 10) as u32));
            got += 1;
            let Layer::Full(f) = &mut l else { unreachable!() };
            let ok = if *typed {
                match sut::catch(|| f.read::<Vec<u8>>(&msg)) {
                    Ok(v) => matches!(&v[..], [pkstl::IncomingMessage::Message { data: Some(x) }] if *x == d.bytes()),
                    Err(_) => false,
                }
            } else {
                l.read(&msg) == Ok(vec![Got::User { data: Some(plain) }])
            };
            if !ok {
                return Err(format!(
                    "a message compressed at level {}{} was not delivered under the configuration {:?}",
                    how / 3 % 10,
                    if *typed { format!(" in format {}", format) } else { String::new() },
                    st.cfg
                ));
            }
        }
    }
    if used.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

fn data(max: usize) -> impl Strategy<Value = Data> {
    (
        prop_oneof![2 => 0usize..40, 2 => 0usize..1500.min(max), 2 => 1000usize.min(max)..12_000.min(max + 1), 1 => 0usize..max, 1 => near_source(max)],
        prop_oneof![4 => Just(0u8), 1 => 1u8..KINDS],
        0u64..10_000,
    )
        .prop_map(|(len, kind, seed)| Data { len, kind, seed })
}

fn msg(max: usize) -> impl Strategy<Value = Msg> {
    let min = prop_oneof![
        4 => (-2i64..3).prop_map(Min::Rel),
        2 => (-40i64..40).prop_map(Min::Rel),
        1 => Just(Min::Abs(0)),
        1 => Just(Min::Abs(1)),
        1 => Just(Min::Abs(8192)),
        1 => Just(Min::Abs(usize::MAX)),
        1 => (0u32..64, 0usize..3).prop_map(|(k, d)| Min::Abs((1usize << k).saturating_add(d) - 1)),
        1 => (0usize..30_000).prop_map(Min::Abs),
        1 => near_source(usize::MAX).prop_map(Min::Abs),
    ];
    (
        prop_oneof![1 => Just(None), 3 => (0u32..10, min, 0u8..5).prop_map(Some)],
        data(max),
        any::<bool>(),
        prop_oneof![9 => Just(false), 1 => Just(true)],
        prop_oneof![2 => Just(None), 1 => (data(max.min(3000)), any::<u8>(), any::<bool>()).prop_map(Some)],
    )
        .prop_map(|(cfg, data, typed, clone, incoming)| Msg { cfg, data, typed, clone, incoming })
}

fn case(max: usize, n: usize) -> impl Strategy<Value = Case> {
    (
        any::<u64>(),
        (0u32..10, prop_oneof![Just(0usize), Just(8192usize), 0usize..3000], 0u8..5),
        proptest::option::of(msg(max)),
        proptest::option::of(msg(max)),
        proptest::collection::vec(msg(max), 1..n),
    )
        .prop_map(|(seed, first, connect, ack, user)| Case { seed, first, connect, ack, user })
}

/// A receiver of any configuration gets messages of any other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Receiver {
    cfg: Cfg,
    /// Changed to this between the ACK and the user messages.
    then: Option<Cfg>,
    level: u32,
    data: Data,
    typed: bool,
    format: u8,
    seed: u64,
}

fn receiver(c: &Receiver, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let mut peer = Peer::new(c.seed ^ 0x16, true);
    let Ok(Layer::Full(mut l)) = Layer::create(Mode::Complete, c.cfg.get(), own_seed(c.seed, 1), None) else { return Ok(()) };
    let mut w = BufWriter::new(Vec::new());
    let Ok(()) = sut::catch(|| l.write_connect_msg_bin(None, &mut w)) else { return Ok(()) };
    match wire::decode(&w.into_inner().unwrap_or_default(), None, None) {
        Ok(Decoded::Connect { epk, .. }) => peer.see_epk(epk),
        _ => return Ok(()),
    }
    let raw = c.data.bytes();
    let plain = if c.typed { typed_bytes(&c.data, c.format) } else { raw.clone() };
    let z = wire::deflate(&plain, c.level);
    let mut read = |l: &mut pkstl::SecureLayer, what: &str, m: Vec<u8>| -> Result<(), String> {
        use pkstl::{IncomingBinaryMessage as B, IncomingMessage as T};
        let ok = if c.typed {
            match sut::catch(|| l.read::<Vec<u8>>(&m)).as_deref() {
                Ok([T::Connect { custom_data: Some(d), .. }]) | Ok([T::Ack { custom_data: Some(d) }]) | Ok([T::Message { data: Some(d) }]) => {
                    *d == raw
                }
                _ => false,
            }
        } else {
            match sut::catch(|| l.read_bin(&m)).as_deref() {
                Ok([B::Connect { custom_data: Some(d), .. }]) | Ok([B::Ack { custom_data: Some(d) }]) | Ok([B::Message { data: Some(d) }]) => {
                    *d == plain
                }
                _ => false,
            }
        };
        if !ok {
            return Err(format!(
                "{} of {} bytes, compressed at level {}{}, was not delivered under the configuration {:?} (then {:?})",
                what,
                plain.len(),
                c.level,
                if c.typed { format!(" in format {}", c.format) } else { String::new() },
                c.cfg,
                c.then
            ));
        }
        Ok(())
    };
    if !plain.is_empty() {
        read(&mut l, "a CONNECT", wire::signed(wire::connect_body(&peer.epk, &peer.id.pk(), &z), &peer.id))?;
    } else if sut::catch(|| l.read_bin(&peer.connect(None))).is_err() {
        return Ok(());
    }
    let mut w = BufWriter::new(Vec::new());
    let Ok(()) = sut::catch(|| l.write_ack_msg_bin(None, &mut w)) else { return Ok(()) };
    let ack = if plain.is_empty() { peer.ack(None) } else { wire::signed(wire::ack_body(&peer.remote_epk.unwrap(), &z), &peer.id) };
    if plain.is_empty() {
        let Ok(_) = sut::catch(|| l.read_bin(&ack)) else { return Ok(()) };
    } else {
        read(&mut l, "an ACK", ack)?;
    }
    if let Some(t) = &c.then {
        sut::catch(|| l.change_config(t.get())).map_err(|e| format!("changing the configuration: {}", e))?;
    }
    let key = peer.key.unwrap();
    for n in 0..2 {
        if !plain.is_empty() {
            read(&mut l, "a user message", wire::user_msg(&key, n, &z))?;
        }
    }
    if plain.len() > 65_535 {
        obs.label("more than one stored block");
    }
    if c.then.is_some() || c.cfg.level != c.level {
        obs.nontrivial();
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    // sizes around thresholds, every level, in each kind of message
    let mut grid = vec![];
    for level in 0..10u32 {
        for t in [0usize, 1, 2, 100, 5000, 8192, 20_000] {
            for d in [-1i64, 0, 1] {
                let n = t as i64 + d;
                if n < 0 {
                    continue;
                }
                let m = |seed: u64, typed: bool, r: i64| Msg {
                    cfg: Some((level, if typed { Min::Rel(r) } else { Min::Abs(t) }, 2 + (level % 3) as u8)),
                    data: Data { len: n as usize, kind: 0, seed },
                    typed,
                    clone: false,
                    incoming: None,
                };
                grid.push(Case {
                    seed: level as u64,
                    first: ((level + 5) % 10, 8192, 0),
                    connect: Some(m(1, false, 0)),
                    ack: Some(m(2, false, 0)),
                    user: vec![m(3, false, 0), m(4, true, -6), m(5, true, 1), m(6, false, 0)],
                });
            }
        }
    }
    // thresholds that are not met, however large
    for k in 14..64u32 {
        for d in 0..3usize {
            let t = (1usize << k) - 1 + d;
            let m = |seed: u64, n: usize, typed: bool| Msg {
                cfg: Some((1 + k % 9, Min::Abs(t), 2 + (k % 3) as u8)),
                data: Data { len: n, kind: 0, seed },
                typed,
                clone: false,
                incoming: None,
            };
            grid.push(Case {
                seed: k as u64,
                first: (6, t, 0),
                connect: Some(m(1, 9_000, false)),
                ack: Some(m(2, 300, false)),
                user: vec![m(3, 9_000, false), m(4, 300, true), m(5, 16_000, false)],
            });
        }
    }
    // the default configuration: level 1 from 8192 bytes on
    for n in [0usize, 1, 8191, 8192, 8193, 30_000] {
        let m = |seed| Msg { cfg: None, data: Data { len: n, kind: 0, seed }, typed: false, clone: false, incoming: None };
        grid.push(Case { seed: 1, first: (1, 8192, 0), connect: Some(m(1)), ack: Some(m(2)), user: vec![m(3)] });
    }
    ctx.each("grid", grid, run_case);
    ctx.prop("changes", ctx.pick(24_000, 250_000), || case(20_000, 8), run_case);
    // receivers of every level, and data of one or more blocks
    let mut r = vec![];
    for own in 0..10u32 {
        for level in [0u32, 1, 6, 9] {
            for len in [1usize, 8191, 8192, 65_534, 65_535, 65_536, 131_071, 200_000, 700_000] {
                for kind in [0u8, 1] {
                    let k = own as usize + level as usize + len;
                    if kind == 1 && k % 2 == 0 {
                        continue;
                    }
                    r.push(Receiver {
                        cfg: Cfg { level: own, min_size: [0, 8192, usize::MAX][k % 3], format: (k % 5) as u8 },
                        then: (k % 4 == 0).then(|| Cfg { level: (own + 5) % 10, min_size: [usize::MAX, 0, 8192][k % 3], format: 0 }),
                        level,
                        data: Data { len, kind, seed: k as u64 },
                        typed: k % 5 == 1,
                        format: 2 + (k % 3) as u8,
                        seed: k as u64,
                    });
                }
            }
        }
    }
    ctx.each("receivers", r, receiver);
    ctx.prop(
        "any-receiver",
        ctx.pick(1500, 60_000),
        || {
            (any_cfg(), proptest::option::of(any_cfg()), 0u32..10, data(20_000), any::<bool>(), 2u8..5, any::<u64>())
                .prop_map(|(cfg, then, level, data, typed, format, seed)| Receiver { cfg, then, level, data, typed, format, seed })
        },
        receiver,
    );
    ctx.prop("large", ctx.pick(60, 3000), || case(400_000, 4), run_case);
    ctx.finish(RULE, "exploration", &["flate2 as used by the harness gives the lengths of each level (same version as pkstl's)"])
}
