//! C12: only exactly well-formed messages are accepted.

use crate::dict;
use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::refcrypto::{sha256, SessionKey};
use crate::setup::{solo, Solo, Stage};
use crate::sut::{seen, Got, Mode, R};
use crate::wire::{self, Decoded};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RULE: &str = "messages of each type made by someone who holds all keys, with fields, lengths, ends and encryption \
 altered before or after signing, hashing and sealing; every single-bit change of every header byte and every length \
 field near the right one, properly signed or hashed again; at a layer in which the genuine message is accepted, or held \
 first. The oracle is a strict decoder written from the format: what is reported must be accepted by it and be exactly \
 its data field. Non-trivial: the strict decoder refuses the message, or the message is not the plain genuine one.";

/// Where it arrives.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Place {
    /// CONNECT, the layer's own not sent.
    Connect,
    ConnectExpected,
    /// ACK, the peer's key known.
    Ack,
    /// ACK before the CONNECT, whose key is not known.
    EarlyAck,
    /// ACK before the CONNECT, the key expected.
    ExpectedAck,
    User,
    CloneUser,
    /// Held until the ACK.
    HeldUser,
}

const PLACES: [Place; 8] = [
    Place::Connect,
    Place::ConnectExpected,
    Place::Ack,
    Place::EarlyAck,
    Place::ExpectedAck,
    Place::User,
    Place::CloneUser,
    Place::HeldUser,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    /// XOR of one bit of the part that is signed or hashed, before that.
    BodyBit(u32, u8),
    Version(u32),
    Type(u16),
    SigAlgo(u32),
    /// These bytes there.
    Put(u8, Vec<u8>),
    Len(i64),
    LenExactly(u64),
    /// Header fields cut from the end (no data then).
    CutHeaders(u8),
    /// More bytes between the data and the end, outside of the length field.
    Surplus(u8, u8),
    /// After the end.
    Trailing(u8, u8),
    Missing(u8),
    /// Signed or hashed: only from here on / up to here.
    EndOverFrom(u8),
    EndOverUpTo(u8),
    /// 0: the other kind of end, 1: none, 2: zeros, 3: both, 4: doubled, 5: hash cut to 16,
    /// 6: the hash of the hash, 7: signature by another key
    End(u8),
    /// Bit of the end.
    EndBit(u16, u8),
    /// Flips the encryption: 0 clear, 1 sealed, 2 sealed twice, 3 sealed with another key,
    /// 4 sealed with other associated data, 5 sealed with another nonce
    Crypt(u8),
    /// After sealing.
    WireBit(u32, u8),
    Prefix(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    place: Place,
    seed: u64,
    data: Option<Payload>,
    nonce: u64,
    mutations: Vec<Mutation>,
}

fn stage(p: Place) -> (Stage, bool) {
    match p {
        Place::Connect => (Stage::Sent, false),
        Place::ConnectExpected => (Stage::Sent, true),
        Place::Ack => (Stage::Waiting, false),
        Place::EarlyAck => (Stage::Sent, false),
        Place::ExpectedAck => (Stage::Sent, true),
        Place::User => (Stage::Done, false),
        Place::CloneUser => (Stage::Cloned, false),
        Place::HeldUser => (Stage::Waiting, false),
    }
}

fn message(s: &Solo, c: &Case) -> Vec<u8> {
    let d = s.peer.pack(c.data.as_ref().map(|p| p.bytes()).as_deref());
    let mut typ = match c.place {
        Place::Connect | Place::ConnectExpected => wire::T_CONNECT,
        Place::Ack | Place::EarlyAck | Place::ExpectedAck => wire::T_ACK,
        _ => wire::T_USER,
    };
    let genuine = typ;
    let mut body = match typ {
        wire::T_CONNECT => wire::connect_body(&s.peer.epk, &s.peer.id.pk(), &d),
        wire::T_ACK => wire::ack_body(&s.peer.remote_epk.unwrap_or([1; 32]), &d),
        _ => wire::user_body(c.nonce, &d),
    };
    for m in &c.mutations {
        match m {
            Mutation::BodyBit(i, k) => {
                let n = body.len();
                body[*i as usize % n] ^= 1 << (k % 8);
            }
            Mutation::Version(v) => body[4..8].copy_from_slice(&v.to_be_bytes()),
            Mutation::Type(t) if body.len() >= 18 => {
                typ = *t;
                body[16..18].copy_from_slice(&t.to_be_bytes());
            }
            Mutation::SigAlgo(a) if genuine == wire::T_CONNECT && body.len() >= 54 => {
                body[50..54].copy_from_slice(&a.to_be_bytes())
            }
            Mutation::Put(at, v) if body.len() >= *at as usize + v.len() => {
                body[*at as usize..][..v.len()].copy_from_slice(v)
            }
            Mutation::Len(k) => {
                let l = u64::from_be_bytes(body[8..16].try_into().unwrap()).wrapping_add(*k as u64);
                body[8..16].copy_from_slice(&l.to_be_bytes());
            }
            Mutation::LenExactly(l) => body[8..16].copy_from_slice(&l.to_be_bytes()),
            Mutation::CutHeaders(k) => {
                let hdr = [26, 86, 50][genuine as usize];
                body.truncate(hdr - (*k as usize % (hdr - 17)));
                let l = (body.len() - 16) as u64;
                body[8..16].copy_from_slice(&l.to_be_bytes());
            }
            Mutation::Surplus(n, v) => body.extend(std::iter::repeat(*v).take(*n as usize)),
            _ => {}
        }
    }
    let covered = {
        let mut r = 0..body.len();
        for m in &c.mutations {
            match m {
                Mutation::EndOverFrom(k) => r.start = (*k as usize).min(body.len()),
                Mutation::EndOverUpTo(k) => r.end = body.len().saturating_sub(*k as usize),
                _ => {}
            }
        }
        if r.start > r.end {
            r.start = r.end;
        }
        &body[r]
    };
    // the end its own type wants, unless altered
    let user = typ == wire::T_USER;
    let mut end = if user { sha256(covered).to_vec() } else { s.peer.id.sign(covered).to_vec() };
    for m in &c.mutations {
        match m {
            Mutation::End(k) => {
                end = match k % 8 {
                    0 if user => s.peer.id.sign(covered).to_vec(),
                    0 => sha256(covered).to_vec(),
                    1 => vec![],
                    2 => vec![0; end.len()],
                    3 => {
                        let mut e = sha256(covered).to_vec();
                        e.extend(s.peer.id.sign(&[&body[..], &e].concat()));
                        e
                    }
                    4 => [&end[..], &end].concat(),
                    5 => end[..end.len().min(16)].to_vec(),
                    6 => sha256(&end).to_vec(),
                    _ => s.own.sign(covered).to_vec(),
                }
            }
            Mutation::EndBit(i, k) if !end.is_empty() => {
                let n = end.len();
                end[*i as usize % n] ^= 1 << (k % 8);
            }
            _ => {}
        }
    }
    let mut m = body;
    m.extend(end);
    for mu in &c.mutations {
        match mu {
            Mutation::Trailing(n, v) => m.extend(std::iter::repeat(*v).take(*n as usize)),
            Mutation::Missing(n) => {
                let k = m.len().saturating_sub(*n as usize);
                m.truncate(k)
            }
            _ => {}
        }
    }
    let key = s.peer.key.unwrap_or(SessionKey([3; 48]));
    let mut seal = u8::from(user);
    for mu in &c.mutations {
        if let Mutation::Crypt(k) = mu {
            seal = k % 6;
        }
    }
    m = match seal {
        0 => m,
        1 => key.seal(&m),
        2 => key.seal(&key.seal(&m)),
        k => {
            let mut o = key.0;
            o[[0, 44, 32][k as usize - 3]] ^= 1;
            SessionKey(o).seal(&m)
        }
    };
    for mu in &c.mutations {
        match mu {
            Mutation::WireBit(i, k) if !m.is_empty() => {
                let n = m.len();
                m[*i as usize % n] ^= 1 << (k % 8);
            }
            Mutation::Prefix(p) => m = [&p[..], &m].concat(),
            _ => {}
        }
    }
    m
}

/// What the reports must say, were the message accepted.
fn judge(s: &Solo, c: &Case, m: &[u8], got: &[Got]) -> Result<(), String> {
    let signer = s.peer.id.pk();
    let strict = wire::decode(m, s.peer.key.as_ref(), Some(&signer));
    let field = |d: &[u8]| -> Option<Option<Vec<u8>>> {
        if d.is_empty() {
            return Some(None);
        }
        match c.mode {
            Mode::Minimal => Some(Some(d.to_vec())),
            Mode::Complete => wire::inflate(d).map(Some),
        }
    };
    for g in got {
        let (want, data) = match (g, &strict) {
            (Got::Connect { key, data }, Ok(Decoded::Connect { sig_pk, data: d, .. })) => {
                if key != sig_pk {
                    return Err("CONNECT reported with another key".into());
                }
                (field(d), data)
            }
            (Got::Ack { data }, Ok(Decoded::Ack { data: d, .. })) => (field(d), data),
            (Got::User { data }, Ok(Decoded::User { data: d, .. })) => (field(d), data),
            (_, Err(e)) => return Err(format!("accepted ({}), although the message is wrong: {}", g.brief(), e)),
            (_, Ok(d)) => {
                return Err(format!("reported as {}, although it is {:?}", g.brief(), d));
            }
        };
        let same = match (c.mode, &want) {
            // a deflate stream that does not end, or with bytes behind it: not this property's
            (Mode::Complete, None) => true,
            (_, Some(w)) => w == data || seen(c.mode, w.as_deref()) == *data,
            _ => false,
        };
        if !same {
            return Err(format!("reported {} instead of exactly the data field", g.brief()));
        }
    }
    Ok(())
}

fn deliver(s: &mut Solo, c: &Case, m: &[u8]) -> R<Vec<Got>> {
    let first = s.layer.read(m)?;
    if !first.is_empty() {
        return Ok(first);
    }
    // held: the missing message comes, and what it reports itself is left out
    match c.place {
        Place::EarlyAck => {
            let con = s.peer.connect(None);
            let mut v = s.layer.read_all(&con)?;
            v.retain(|g| !matches!(g, Got::Connect { .. }));
            Ok(v)
        }
        Place::HeldUser => {
            let ack = s.peer.ack(None);
            let mut v = s.layer.read_all(&ack)?;
            v.retain(|g| !matches!(g, Got::Ack { .. }));
            Ok(v)
        }
        _ => Ok(first),
    }
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (st, expect) = stage(c.place);
    let Ok(mut s) = solo(c.mode, &Cfg::default(), expect, st, c.seed) else {
        obs.label("no session");
        return Ok(());
    };
    let m = message(&s, c);
    if wire::decode(&m, s.peer.key.as_ref(), Some(&s.peer.id.pk())).is_err() {
        obs.nontrivial();
        obs.label("wrong");
    } else if !c.mutations.is_empty() {
        obs.nontrivial();
        obs.label("altered, still right");
    } else {
        obs.label("right");
    }
    let r = deliver(&mut s, c, &m);
    if let Ok(v) = &r {
        if !v.is_empty() {
            obs.label("accepted");
        }
        judge(&s, c, &m, v)?;
    }
    Ok(())
}

/// Several single alterations of the same message, by index.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    mode: Mode,
    place: Place,
    data: Option<Payload>,
    what: u8,
    from: u32,
    count: u32,
}

fn alteration(what: u8, i: u32) -> Vec<Mutation> {
    match what {
        0 => vec![Mutation::BodyBit(i / 8, (i % 8) as u8)],
        1 => vec![Mutation::Len(i as i64 - 200)],
        2 => vec![Mutation::LenExactly(i as u64)],
        3 => vec![Mutation::Trailing(i as u8, 0)],
        4 => vec![Mutation::Surplus(i as u8, 0)],
        5 => vec![Mutation::Missing(i as u8)],
        6 => vec![Mutation::EndOverFrom(i as u8)],
        7 => vec![Mutation::EndOverUpTo(i as u8)],
        8 => vec![Mutation::EndBit((i / 8) as u16, (i % 8) as u8)],
        9 => vec![Mutation::Type(i as u16)],
        10 => vec![Mutation::Version(i)],
        11 => vec![Mutation::SigAlgo(i)],
        12 => vec![Mutation::CutHeaders(i as u8)],
        // length field and surplus that agree, or that cancel out
        13 => vec![Mutation::Surplus(i as u8, 0), Mutation::Len(i as i64)],
        14 => vec![Mutation::Surplus(i as u8, 1), Mutation::Len(-(i as i64))],
        15 => vec![Mutation::EndOverUpTo(i as u8), Mutation::Len(-(i as i64))],
        16 => vec![Mutation::Len(-(i as i64)), Mutation::Missing(i as u8)],
        17 => vec![Mutation::Crypt(i as u8)],
        18 => vec![Mutation::End((i % 8) as u8), Mutation::Len(i as i64 / 8)],
        19 => vec![Mutation::Type((i % 3) as u16), Mutation::Crypt((i / 3 % 6) as u8), Mutation::End((i / 18) as u8)],
        20 => vec![Mutation::Len(-(i as i64)), Mutation::EndOverUpTo(i as u8), Mutation::Crypt(1)],
        21 => vec![Mutation::Trailing(i as u8, 0), Mutation::EndOverUpTo(1)],
        // what stands in the source, in each field
        23 => {
            let q = dict::quads()[i as usize / 5];
            vec![match i % 5 {
                0 => Mutation::Put(0, q.to_vec()),
                1 => Mutation::Version(u32::from_be_bytes(q)),
                2 => Mutation::Type(u16::from_be_bytes([q[2], q[3]])),
                3 => Mutation::SigAlgo(u32::from_be_bytes(q)),
                _ => Mutation::LenExactly(u32::from_be_bytes(q) as u64),
            }]
        }
        24 => vec![Mutation::Len(dict::around(1 << 40)[i as usize / 2] as i64 * if i % 2 == 0 { 1 } else { -1 })],
        _ => vec![Mutation::WireBit(i / 8, (i % 8) as u8)],
    }
}

fn run_sweep(c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    for i in c.from..c.from + c.count {
        let one = Case {
            mode: c.mode,
            place: c.place,
            seed: 1200,
            data: c.data.clone(),
            nonce: 0,
            mutations: alteration(c.what, i),
        };
        obs.extra += 1;
        run_case(&one, obs).map_err(|e| format!("{:?}: {}", one.mutations, e))?;
    }
    obs.labels.clear();
    Ok(())
}

fn mutation() -> impl Strategy<Value = Mutation> {
    let small = || prop_oneof![4 => 1u8..8, 2 => 1u8..100, 1 => prop_oneof![Just(16u8), Just(32), Just(64), Just(96)]];
    prop_oneof![
        4 => (prop_oneof![3 => 0u32..90, 1 => any::<u32>()], 0u8..8).prop_map(|(i, k)| Mutation::BodyBit(i, k)),
        1 => prop_oneof![0u32..4, any::<u32>()].prop_map(Mutation::Version),
        2 => prop_oneof![4 => 0u16..4, 1 => any::<u16>()].prop_map(Mutation::Type),
        1 => prop_oneof![0u32..4, any::<u32>()].prop_map(Mutation::SigAlgo),
        4 => prop_oneof![4 => -40i64..40, 1 => -200i64..200, 1 => any::<i64>()].prop_map(Mutation::Len),
        1 => prop_oneof![0u64..100, any::<u64>()].prop_map(Mutation::LenExactly),
        1 => any::<u8>().prop_map(Mutation::CutHeaders),
        1 => (prop_oneof![0u8..60, Just(0u8), Just(50)], proptest::sample::select(dict::quads())).prop_map(|(i, q)| Mutation::Put(i, q.to_vec())),
        2 => (small(), any::<u8>()).prop_map(|(n, v)| Mutation::Surplus(n, v)),
        2 => (small(), any::<u8>()).prop_map(|(n, v)| Mutation::Trailing(n, v)),
        2 => small().prop_map(Mutation::Missing),
        2 => small().prop_map(Mutation::EndOverFrom),
        2 => small().prop_map(Mutation::EndOverUpTo),
        3 => any::<u8>().prop_map(Mutation::End),
        1 => (any::<u16>(), 0u8..8).prop_map(|(i, k)| Mutation::EndBit(i, k)),
        3 => any::<u8>().prop_map(Mutation::Crypt),
        1 => (any::<u32>(), 0u8..8).prop_map(|(i, k)| Mutation::WireBit(i, k)),
        1 => proptest::collection::vec(any::<u8>(), 1..6).prop_map(Mutation::Prefix),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (
        any_mode(),
        proptest::sample::select(&PLACES[..]),
        any::<u64>(),
        prop_oneof![6 => opt_payload(), 1 => any_payload(100_000).prop_map(Some)],
        prop_oneof![3 => 0u64..4, 1 => any::<u64>()],
        proptest::collection::vec(mutation(), 0..4),
    )
        .prop_map(|(mode, place, seed, data, nonce, mutations)| Case { mode, place, seed, data, nonce, mutations })
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut sweeps = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for place in PLACES {
            let datas = match (place, ctx.quick()) {
                (Place::ConnectExpected | Place::ExpectedAck | Place::CloneUser, true) => vec![Some(Payload::new(21, 1, 1))],
                (_, true) => vec![None, Some(Payload::new(21, 1, 1))],
                _ => vec![None, Some(Payload::new(1, 1, 1)), Some(Payload::new(21, 1, 1)), Some(Payload::new(150, 3, 1))],
            };
            for data in datas {
                let hdr = match place {
                    Place::Connect | Place::ConnectExpected => 86u32,
                    Place::Ack | Place::EarlyAck | Place::ExpectedAck => 50,
                    _ => 26,
                };
                let len = hdr + data.as_ref().map_or(0, |d| d.len as u32 + 10);
                let bits = len * 8;
                let dense = ctx.pick(1, 3);
                for (what, n) in [
                    (0u8, bits),
                    (1, 400),
                    (2, 160),
                    (3, 100),
                    (4, 100),
                    (5, 100),
                    (6, 70),
                    (7, 100),
                    (8, 512),
                    (9, ctx.pick(300, 65_536)),
                    (10, 20),
                    (11, 20),
                    (12, 75),
                    (13, 100),
                    (14, 100),
                    (15, 100),
                    (16, 100),
                    (17, 6),
                    (18, 64),
                    (19, 144),
                    (20, 100),
                    (21, 100),
                    (23, dict::quads().len() as u32 * 5),
                    (24, dict::around(1 << 40).len() as u32 * 2),
                    (22, (len + 80) * 8 * (dense / 3)),
                ] {
                    let mut from = 0;
                    while from < n {
                        let count = 20.min(n - from);
                        sweeps.push(Sweep { mode, place, data: data.clone(), what, from, count });
                        from += count;
                    }
                }
            }
        }
    }
    ctx.each("every-field", sweeps, run_sweep);
    ctx.prop("mutations", ctx.pick(60_000, 3_000_000), case, run_case);
    ctx.finish(RULE, "exploration", &["Ed25519 and SHA-256 are secure"])
}
