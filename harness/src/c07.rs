//! C07: no received bytes and no call sequence cause a panic.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::refcrypto::{sha256, SessionKey};
use crate::setup::{solo, Solo, Stage, STAGES};
use crate::sink::Sink;
use crate::sut::{catch, Layer, Mode, E};
use crate::values::{self, Inner, Val};
use crate::wire;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::io::BufWriter;

const RULE: &str = "calls of every public function, in any order, on a layer in each of eleven states and either mode, with \
 received bytes made structure first: any type, version, length field, headers cut anywhere, data raw, deflated, badly \
 deflated or typed, then correctly signed, hashed and encrypted by the holder of all keys, then optionally damaged; plus \
 an enumeration of every total length with wrong length fields. The oracle: every call returns (no panic, no abort, no \
 hang). Non-trivial: bytes other than an unaltered well-formed message were read, or a call was refused.";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum LenField {
    Right,
    Plus(i32),
    Exactly(u64),
    /// Relative to u64::MAX.
    NearMax(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum End {
    /// What the type wants.
    Right,
    None,
    PeerSig,
    Hash,
    Zero(u8),
    CutSig(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Data {
    None,
    Raw(Payload),
    Deflated(Payload),
    /// Deflated, then cut or damaged: (position, how)
    BadDeflate(Payload, u32, u8),
    /// A typed value: the header's format, the encoding's, damage.
    Typed(Val, u8, u8, Option<(u32, u8)>),
    /// Typed data of arbitrary bytes.
    TypedBytes(u8, Vec<u8>),
    /// A deflate bomb of this many kB of zeros.
    Bomb(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Crypt {
    /// What the type wants.
    Right,
    Clear,
    Key,
    WrongKey,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    typ: u16,
    version: u32,
    magic: bool,
    sig_algo: u32,
    /// 0 the peer's, 1 low order zero, 2 the layer's own, 3 random.
    epk: u8,
    /// Challenge right or not.
    challenge: bool,
    nonce: u64,
    headers_cut: Option<u8>,
    data: Data,
    len: LenField,
    end: End,
    crypt: Crypt,
    damage: Vec<Damage>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Damage {
    Flip(u32, u8),
    Truncate(u32),
    Extend(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bytes {
    Random(Payload),
    Built(Box<Build>),
    /// The genuine message of the peer: CONNECT, ACK, user.
    Genuine(u8, u64, Option<Payload>),
    OwnConnect,
    OwnAck,
    Again(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Ty {
    Bin,
    Val,
    Str,
    Vec,
    Num,
    Float,
    Tuple,
    Map,
    Hash,
    Struct,
    Option,
    Unit,
    Char,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Read(Ty, Bytes),
    Connect(Option<Payload>),
    /// Minimal: with a public key of this many bytes.
    ConnectKey(u8, Option<Payload>),
    Ack(Option<Payload>),
    Write(Payload),
    ConnectTyped(Option<Val>),
    AckTyped(Option<Val>),
    WriteTyped(Val),
    /// To a sink that fails after this many bytes, with a buffer of this capacity.
    WriteSink(Payload, u16, u8, u16),
    AckSink(Option<Payload>, u16, u8, u16),
    ConnectSink(Option<Payload>, u16, u8, u16),
    Take,
    Drain,
    Clone(bool),
    Config(Cfg),
    Debug,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    cfg: Cfg,
    expect: bool,
    stage: Stage,
    seed: u64,
    ops: Vec<Op>,
}

fn data(d: &Data) -> Vec<u8> {
    match d {
        Data::None => vec![],
        Data::Raw(p) => p.bytes(),
        Data::Deflated(p) => wire::deflate(&p.bytes(), 1 + (p.seed % 9) as u32),
        Data::BadDeflate(p, at, how) => {
            let mut z = wire::deflate(&p.bytes(), (p.seed % 10) as u32);
            let i = *at as usize % z.len().max(1);
            match how % 4 {
                0 => z.truncate(i),
                1 => {
                    if let Some(b) = z.get_mut(i) {
                        *b ^= 1 << (how / 4 % 8);
                    }
                }
                2 => z.extend_from_slice(&[*how; 7]),
                _ => {
                    if let Some(b) = z.get_mut(0) {
                        *b = *how;
                    }
                }
            }
            z
        }
        Data::Typed(v, header, enc, damage) => {
            let mut b = values::encode(v, 2 + enc % 3);
            b[..4].copy_from_slice(&values::header(*header));
            if let Some((i, x)) = damage {
                let k = *i as usize % b.len();
                if x % 3 == 0 {
                    b.truncate(k);
                } else {
                    b[k] = *x;
                }
            }
            wire::deflate(&b, 1)
        }
        Data::TypedBytes(header, body) => {
            let mut b = values::header(*header).to_vec();
            b.extend_from_slice(body);
            wire::deflate(&b, 1)
        }
        Data::Bomb(kb) => wire::deflate(&vec![0; *kb as usize * 1000], 9),
    }
}

fn built(b: &Build, s: &Solo) -> Vec<u8> {
    let mut h: Vec<u8> = match b.typ {
        wire::T_CONNECT => {
            let epk = match b.epk % 4 {
                0 => s.peer.epk,
                1 => [0; 32],
                2 => s.epk.unwrap_or([9; 32]),
                _ => sha256(&b.nonce.to_be_bytes()),
            };
            let mut v = epk.to_vec();
            v.extend_from_slice(&b.sig_algo.to_be_bytes());
            v.extend_from_slice(&s.peer.id.pk());
            v
        }
        wire::T_ACK => match s.peer.remote_epk {
            Some(e) if b.challenge => sha256(&e).to_vec(),
            _ => vec![0x5A; 32],
        },
        wire::T_USER => b.nonce.to_be_bytes().to_vec(),
        _ => vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
    };
    if let Some(k) = b.headers_cut {
        h.truncate(k as usize);
    }
    let d = if b.headers_cut.is_some() { vec![] } else { data(&b.data) };
    let real = (2 + h.len() + d.len()) as u64;
    let len = match b.len {
        LenField::Right => real,
        LenField::Plus(k) => real.wrapping_add(k as i64 as u64),
        LenField::Exactly(n) => n,
        LenField::NearMax(k) => u64::MAX - k as u64,
    };
    let mut m = if b.magic { wire::MAGIC.to_vec() } else { vec![0xE2, 0xC2, 0xE2, 0xD3] };
    m.extend_from_slice(&b.version.to_be_bytes());
    m.extend_from_slice(&len.to_be_bytes());
    m.extend_from_slice(&b.typ.to_be_bytes());
    m.extend_from_slice(&h);
    m.extend_from_slice(&d);
    // the part a reader that believes the length field would check
    let part = usize::try_from(len).ok().and_then(|l| l.checked_add(16)).filter(|e| *e <= m.len()).unwrap_or(m.len());
    let end = match (b.end, b.typ) {
        (End::Right, wire::T_USER) => End::Hash,
        (End::Right, _) => End::PeerSig,
        (e, _) => e,
    };
    match end {
        End::PeerSig | End::Right => {
            let x = s.peer.id.sign(&m[..part]);
            m.extend_from_slice(&x)
        }
        End::Hash => {
            let x = sha256(&m[..part]);
            m.extend_from_slice(&x)
        }
        End::None => {}
        End::Zero(n) => m.extend(std::iter::repeat(0).take(n as usize)),
        End::CutSig(n) => {
            let x = s.peer.id.sign(&m);
            m.extend_from_slice(&x[..n as usize % 64]);
        }
    }
    let seal = match b.crypt {
        Crypt::Right => b.typ == wire::T_USER,
        Crypt::Clear => false,
        Crypt::Key | Crypt::WrongKey => true,
    };
    if seal {
        let wrong = SessionKey([7; 48]);
        let key = match (&s.peer.key, b.crypt) {
            (Some(k), Crypt::Right | Crypt::Key) => k,
            _ => &wrong,
        };
        m = key.seal(&m);
    }
    for d in &b.damage {
        let n = m.len().max(1) as u32;
        match d {
            Damage::Flip(i, k) => {
                if let Some(x) = m.get_mut((i % n) as usize) {
                    *x ^= 1 << (k % 8);
                }
            }
            Damage::Truncate(i) => m.truncate((i % n) as usize),
            Damage::Extend(k, v) => m.extend(std::iter::repeat(*v).take(*k as usize)),
        }
    }
    m
}

fn typed<T: std::fmt::Debug + serde::de::DeserializeOwned>(l: &mut Layer, b: &[u8]) -> Result<(), E> {
    match l {
        Layer::Full(l) => {
            let r = catch(|| l.read::<T>(b))?;
            let _ = format!("{:?}", r);
            Ok(())
        }
        Layer::Min(..) => l.read(b).map(|_| ()),
    }
}

fn read(l: &mut Layer, ty: Ty, b: &[u8]) -> Result<(), E> {
    match ty {
        Ty::Bin => l.read(b).map(|_| ()),
        Ty::Val => typed::<Val>(l, b),
        Ty::Str => typed::<String>(l, b),
        Ty::Vec => typed::<Vec<u64>>(l, b),
        Ty::Num => typed::<i64>(l, b),
        Ty::Float => typed::<(f32, f64)>(l, b),
        Ty::Tuple => typed::<(u8, bool, char, Option<u16>)>(l, b),
        Ty::Map => typed::<BTreeMap<String, Vec<u8>>>(l, b),
        Ty::Hash => typed::<HashMap<u32, Option<Box<Inner>>>>(l, b),
        Ty::Struct => typed::<Inner>(l, b),
        Ty::Option => typed::<Option<Vec<Option<String>>>>(l, b),
        Ty::Unit => typed::<()>(l, b),
        Ty::Char => typed::<char>(l, b),
    }
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut s = match solo(c.mode, &c.cfg, c.expect, c.stage, c.seed) {
        Ok(s) => s,
        Err(e) if e.contains("PANIC") => return Err(e),
        Err(_) => {
            obs.label("no session");
            return Ok(());
        }
    };
    let mut arrived: Vec<Vec<u8>> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let r: Result<(), E> = match op {
            Op::Read(ty, b) => {
                let bytes = match b {
                    Bytes::Random(p) => {
                        obs.nontrivial();
                        p.bytes()
                    }
                    Bytes::Built(b) => {
                        obs.nontrivial();
                        built(b, &s)
                    }
                    Bytes::Genuine(k, n, p) => {
                        let d = p.as_ref().map(|p| p.bytes());
                        match k % 3 {
                            0 => s.peer.connect(d.as_deref()),
                            1 if s.peer.remote_epk.is_some() => s.peer.ack(d.as_deref()),
                            2 if s.peer.key.is_some() => s.peer.user(*n, d.as_deref()),
                            _ => continue,
                        }
                    }
                    Bytes::OwnConnect => s.connect.clone(),
                    Bytes::OwnAck => s.ack.clone(),
                    Bytes::Again(k) => match arrived.len() {
                        0 => vec![],
                        n => arrived[*k as usize % n].clone(),
                    },
                };
                if arrived.len() < 20 {
                    arrived.push(bytes.clone());
                }
                read(&mut s.layer, *ty, &bytes)
            }
            Op::Connect(p) => {
                let d = p.as_ref().map(|p| p.bytes());
                s.layer.connect(d.as_deref()).map(|m| {
                    if let Some(e) = m.get(18..50) {
                        s.epk = Some(e.try_into().unwrap());
                        s.peer.see_epk(e.try_into().unwrap());
                    }
                    s.connect = m;
                })
            }
            Op::ConnectKey(n, p) => match &mut s.layer {
                Layer::Min(l, _) => {
                    let d = p.as_ref().map(|p| p.bytes());
                    let k = vec![3u8; *n as usize];
                    catch(|| l.create_connect_message(&k, d.as_deref())).map(|_| ())
                }
                Layer::Full(_) => Ok(()),
            },
            Op::Ack(p) => {
                let d = p.as_ref().map(|p| p.bytes());
                s.layer.ack(d.as_deref()).map(|m| s.ack = m)
            }
            Op::Write(p) => s.layer.write(&p.bytes()).map(|_| ()),
            Op::ConnectTyped(v) => match &mut s.layer {
                Layer::Full(l) => {
                    let mut w = BufWriter::new(Vec::new());
                    let r = catch(|| l.write_connect_msg(v.as_ref(), &mut w)).map(|_| ());
                    if r.is_ok() {
                        s.connect = w.into_inner().unwrap_or_default();
                        if let Some(e) = s.connect.get(18..50) {
                            s.epk = Some(e.try_into().unwrap());
                            s.peer.see_epk(e.try_into().unwrap());
                        }
                    }
                    r
                }
                Layer::Min(..) => Ok(()),
            },
            Op::AckTyped(v) => match &mut s.layer {
                Layer::Full(l) => catch(|| l.write_ack_msg(v.as_ref(), &mut BufWriter::new(Vec::new()))),
                Layer::Min(..) => Ok(()),
            },
            Op::WriteTyped(v) => match &mut s.layer {
                Layer::Full(l) => catch(|| l.write(v, &mut BufWriter::new(Vec::new()))),
                Layer::Min(..) => Ok(()),
            },
            Op::WriteSink(p, at, kind, cap) => {
                let mut w = BufWriter::with_capacity(*cap as usize, Sink::failing(*at as usize, *kind));
                let d = p.bytes();
                let r = match &mut s.layer {
                    Layer::Min(l, _) => catch(|| l.write_message(&d, &mut w)),
                    Layer::Full(l) => catch(|| l.write_bin(&d, &mut w)),
                };
                std::mem::forget(w);
                r
            }
            Op::AckSink(p, at, kind, cap) | Op::ConnectSink(p, at, kind, cap) => {
                let mut w = BufWriter::with_capacity(*cap as usize, Sink::failing(*at as usize, *kind));
                let d = p.as_ref().map(|p| p.bytes());
                let r = match (&mut s.layer, op) {
                    (Layer::Min(..), _) => Ok(()),
                    (Layer::Full(l), Op::AckSink(..)) => catch(|| l.write_ack_msg_bin(d.as_deref(), &mut w)),
                    (Layer::Full(l), _) => catch(|| l.write_connect_msg_bin(d.as_deref(), &mut w)),
                };
                std::mem::forget(w);
                r
            }
            Op::Take => s.layer.take().map(|_| ()),
            Op::Drain => s.layer.drain().map(|_| ()),
            Op::Clone(keep) => s.layer.try_clone().map(|l| {
                if !keep {
                    s.layer = l
                }
            }),
            Op::Config(c) => s.layer.change_config(c.get()),
            Op::Debug => {
                let t = match &s.layer {
                    Layer::Min(l, _) => catch(|| Ok(format!("{:?}", l))),
                    Layer::Full(l) => catch(|| Ok(format!("{:?}", l))),
                };
                t.map(|_| ())
            }
        };
        match r {
            Ok(()) => {}
            Err(E::Panic(p)) => return Err(format!("step {} {}: panic: {}", i, short(op), p)),
            Err(E::Err(_)) => obs.nontrivial(),
        }
    }
    obs.label(&format!("{:?}", c.stage));
    Ok(())
}

fn short(op: &Op) -> String {
    format!("{:?}", op).chars().take(160).collect()
}

/// Every total length with several length fields, correctly signed or hashed and encrypted.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Length {
    mode: Mode,
    stage: Stage,
    typ: u16,
    total: u16,
}

fn run_length(c: &Length, obs: &mut Obs) -> Result<(), String> {
    let fields = [
        LenField::Right,
        LenField::Plus(-1),
        LenField::Plus(1),
        LenField::Plus(-40),
        LenField::Plus(64),
        LenField::Plus(32),
        LenField::Exactly(0),
        LenField::Exactly(1),
        LenField::Exactly(2),
        LenField::Exactly(34),
        LenField::Exactly(70),
        LenField::Exactly(1 << 63),
        LenField::NearMax(0),
        LenField::NearMax(15),
        LenField::NearMax(16),
        LenField::NearMax(200),
    ];
    let base = match solo(c.mode, &Cfg::default(), false, c.stage, 700) {
        Ok(s) => s,
        Err(e) if e.contains("PANIC") => return Err(e),
        Err(_) => return Ok(()),
    };
    let full = match c.typ {
        1 => 68,
        2 => 32,
        0 => 8,
        _ => 10,
    };
    let hdr = (c.total as usize).min(full);
    let b0 = Build {
        typ: c.typ,
        version: 1,
        magic: true,
        sig_algo: 0,
        epk: 0,
        challenge: true,
        nonce: 0,
        headers_cut: (hdr < full).then_some(hdr as u8),
        data: Data::Raw(Payload::new(c.total as usize - hdr, 1, 5)),
        len: LenField::Right,
        end: End::Right,
        crypt: Crypt::Right,
        damage: vec![],
    };
    let mut s = base;
    for (k, len) in fields.iter().enumerate() {
        for end in [End::Right, End::None] {
            let b = Build { len: *len, end, ..b0.clone() };
            let m = built(&b, &s);
            obs.extra += 1;
            obs.nontrivial();
            let r = s.layer.read(&m);
            if let Err(E::Panic(p)) = r {
                return Err(format!("type {}, {} bytes after the type, length field {:?}, {:?}: panic: {}", c.typ, c.total, len, end, p));
            }
            // cut below the type, too
            if c.total == 0 && k == 0 {
                for n in 0..m.len() {
                    if let Err(E::Panic(p)) = s.layer.read(&m[..n]) {
                        return Err(format!("{} bytes of a message: panic: {}", n, p));
                    }
                }
            }
            s = match solo(c.mode, &Cfg::default(), false, c.stage, 700) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            };
        }
    }
    Ok(())
}

fn ty() -> impl Strategy<Value = Ty> {
    prop_oneof![
        8 => Just(Ty::Bin), 4 => Just(Ty::Val), 1 => Just(Ty::Str), 1 => Just(Ty::Vec), 1 => Just(Ty::Num),
        1 => Just(Ty::Float), 1 => Just(Ty::Tuple), 1 => Just(Ty::Map), 1 => Just(Ty::Hash), 1 => Just(Ty::Struct),
        1 => Just(Ty::Option), 1 => Just(Ty::Unit), 1 => Just(Ty::Char),
    ]
}

fn some_data() -> impl Strategy<Value = Data> {
    prop_oneof![
        3 => Just(Data::None),
        3 => small_payload().prop_map(Data::Raw),
        3 => any_payload(20_000).prop_map(Data::Deflated),
        3 => (small_payload(), any::<u32>(), any::<u8>()).prop_map(|(p, a, h)| Data::BadDeflate(p, a, h)),
        3 => (values::val(), prop_oneof![4 => 2u8..5, 1 => 0u8..8], 0u8..3, proptest::option::of((any::<u32>(), any::<u8>())))
            .prop_map(|(v, h, e, d)| Data::Typed(v, h, e, d)),
        3 => (prop_oneof![4 => 2u8..5, 1 => 0u8..8], typed_bytes()).prop_map(|(h, b)| Data::TypedBytes(h, b)),
        1 => (1u16..300).prop_map(Data::Bomb),
    ]
}

/// Encodings with absurd lengths, deep nesting, text that is not UTF-8.
fn typed_bytes() -> impl Strategy<Value = Vec<u8>> {
    let n = prop_oneof![
        Just(u64::MAX), Just(u64::MAX / 2), Just(1 << 40), Just(1 << 32), Just(1 << 31), 0u64..100, any::<u64>()
    ];
    prop_oneof![
        proptest::collection::vec(any::<u8>(), 0..60),
        (n.clone(), proptest::collection::vec(any::<u8>(), 0..30)).prop_map(|(n, v)| {
            let mut b = n.to_le_bytes().to_vec();
            b.extend(v);
            b
        }),
        (0u32..14, n.clone(), proptest::collection::vec(any::<u8>(), 0..30)).prop_map(|(k, n, v)| {
            let mut b = k.to_le_bytes().to_vec();
            b.extend(n.to_le_bytes());
            b.extend(v);
            b
        }),
        // CBOR: arrays, maps, strings, tags with any length
        (0u8..8, 24u8..32, n, proptest::collection::vec(any::<u8>(), 0..20)).prop_map(|(major, info, n, v)| {
            let mut b = vec![major << 5 | info];
            b.extend(n.to_be_bytes());
            b.extend(v);
            b
        }),
        (1usize..2000, prop_oneof![
            Just(&b"["[..]), Just(&b"{\"List\":["[..]), Just(&b"{\"a\":"[..]), Just(&[0x81][..]), Just(&[0xA1, 0x61, 0x61][..]),
            Just(&[0xC1][..]), Just(&[0x9F][..]), Just(&[0xA1, 0x63, b'O', b'p', b't'][..]), Just(&[9, 0, 0, 0, 1][..]),
            Just(&[10, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0][..]), Just(&[1][..])
        ])
        .prop_map(|(n, p)| p.repeat(n)),
        "\\PC{0,40}".prop_map(|s| s.into_bytes()),
        prop_oneof![Just("\"\\ud800\""), Just("1e999999"), Just("-0"), Just("\"\\u0000\""), Just("99999999999999999999999"), Just("nul"), Just("{\"Half\":1e400}")]
            .prop_map(|s| s.as_bytes().to_vec()),
    ]
}

fn some_build() -> impl Strategy<Value = Build> {
    let typ = prop_oneof![4 => Just(0u16), 4 => Just(1u16), 4 => Just(2u16), 1 => Just(3u16), 1 => any::<u16>(), 1 => Just(256u16)];
    let len = prop_oneof![
        8 => Just(LenField::Right),
        3 => (-120i32..120).prop_map(LenField::Plus),
        1 => any::<u64>().prop_map(LenField::Exactly),
        1 => any::<u8>().prop_map(LenField::NearMax),
    ];
    let end = prop_oneof![
        8 => Just(End::Right), 1 => Just(End::None), 1 => Just(End::PeerSig), 1 => Just(End::Hash),
        1 => (0u8..70).prop_map(End::Zero), 1 => any::<u8>().prop_map(End::CutSig),
    ];
    let crypt = prop_oneof![8 => Just(Crypt::Right), 1 => Just(Crypt::Clear), 2 => Just(Crypt::Key), 1 => Just(Crypt::WrongKey)];
    let damage = prop_oneof![
        (any::<u32>(), 0u8..8).prop_map(|(i, k)| Damage::Flip(i, k)),
        any::<u32>().prop_map(Damage::Truncate),
        (1u8..70, any::<u8>()).prop_map(|(k, v)| Damage::Extend(k, v)),
    ];
    (
        (typ, prop_oneof![12 => Just(1u32), 1 => any::<u32>(), 1 => Just(0u32)], proptest::bool::weighted(0.95),
         prop_oneof![10 => Just(0u32), 1 => Just(1u32), 1 => any::<u32>()]),
        (prop_oneof![4 => Just(0u8), 1 => 0u8..4], proptest::bool::weighted(0.9),
         prop_oneof![4 => 0u64..4, 1 => Just(1000u64), 1 => any::<u64>(), 1 => Just(u64::MAX)]),
        (proptest::option::weighted(0.15, 0u8..70), some_data(), len, end, crypt),
        prop_oneof![6 => Just(vec![]), 1 => proptest::collection::vec(damage, 1..3)],
    )
        .prop_map(|((typ, version, magic, sig_algo), (epk, challenge, nonce), (headers_cut, data, len, end, crypt), damage)| {
            Build { typ, version, magic, sig_algo, epk, challenge, nonce, headers_cut, data, len, end, crypt, damage }
        })
}

fn bytes() -> impl Strategy<Value = Bytes> {
    prop_oneof![
        1 => small_payload().prop_map(Bytes::Random),
        10 => some_build().prop_map(|b| Bytes::Built(Box::new(b))),
        4 => (0u8..3, prop_oneof![3 => 0u64..5, 1 => any::<u64>()], proptest::option::of(small_payload()))
            .prop_map(|(k, n, p)| Bytes::Genuine(k, n, p)),
        1 => Just(Bytes::OwnConnect),
        1 => Just(Bytes::OwnAck),
        1 => any::<u8>().prop_map(Bytes::Again),
    ]
}

fn op(reads: u32) -> impl Strategy<Value = Op> {
    let sink = || (opt_payload(), 0u16..400, any::<u8>(), prop_oneof![Just(0u16), 0u16..200, Just(8192u16)]);
    prop_oneof![
        reads => (ty(), bytes()).prop_map(|(t, b)| Op::Read(t, b)),
        2 => opt_payload().prop_map(Op::Connect),
        1 => (any::<u8>(), opt_payload()).prop_map(|(n, p)| Op::ConnectKey(n, p)),
        2 => opt_payload().prop_map(Op::Ack),
        2 => any_payload(40_000).prop_map(Op::Write),
        1 => proptest::option::of(values::val()).prop_map(Op::ConnectTyped),
        1 => proptest::option::of(values::val()).prop_map(Op::AckTyped),
        2 => values::val().prop_map(Op::WriteTyped),
        1 => sink().prop_map(|(p, a, k, c)| Op::WriteSink(p.unwrap_or(Payload::new(3, 1, 1)), a, k, c)),
        1 => sink().prop_map(|(p, a, k, c)| Op::AckSink(p, a, k, c)),
        1 => sink().prop_map(|(p, a, k, c)| Op::ConnectSink(p, a, k, c)),
        1 => Just(Op::Take),
        1 => Just(Op::Drain),
        1 => any::<bool>().prop_map(Op::Clone),
        1 => any_cfg().prop_map(Op::Config),
        1 => Just(Op::Debug),
    ]
}

fn case(reads: u32, max: usize) -> impl Strategy<Value = Case> {
    (
        any_mode(),
        any_cfg(),
        any::<bool>(),
        proptest::sample::select(&STAGES[..]),
        0u64..1 << 40,
        proptest::collection::vec(op(reads), 1..max),
    )
        .prop_map(|(mode, cfg, expect, stage, seed, ops)| Case { mode, cfg, expect, stage, seed, ops })
}

/// A typed message nested this deep, read in a process of its own (`pkstl-verif nest`).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    format: u8,
    depth: u32,
}

/// Reads it; the process dies if the read does not return.
pub fn nest(format: u8, depth: u32) -> i32 {
    let unit: (&[u8], &[u8], &[u8]) = match format {
        2 => (b"{\"List\":[", b"\"Unit\"", b"]}"),
        3 => (&[0xA1, 0x64, b'L', b'i', b's', b't', 0x81], &[0x64, b'U', b'n', b'i', b't'], &[]),
        _ => (&[9, 0, 0, 0, 1], &[0, 0, 0, 0], &[]),
    };
    let mut b = values::header(format).to_vec();
    b.extend(unit.0.repeat(depth as usize));
    b.extend(unit.1);
    b.extend(unit.2.repeat(depth as usize));
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let Ok(mut s) = solo(Mode::Complete, &Cfg::default(), false, Stage::Done, 1) else { return 0 };
        let m = wire::user_msg(s.peer.key.as_ref().unwrap(), 0, &wire::deflate(&b, 1));
        match typed::<Val>(&mut s.layer, &m) {
            Err(E::Panic(_)) => 3,
            r => i32::from(r.is_ok()),
        }
    });
    t.expect("spawn").join().unwrap_or(3)
}

fn run_nest(ctx: &Ctx, c: &Nest, obs: &mut Obs) -> Result<(), String> {
    use std::os::unix::process::ExitStatusExt;
    obs.nontrivial();
    let st = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["nest", &c.format.to_string(), &c.depth.to_string()])
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let what = format!("a message of format {} nested {} deep", c.format, c.depth);
    match (st.code(), st.signal()) {
        (Some(3), _) => Err(format!("{}: panic", what)),
        (Some(_), _) => Ok(()),
        // killed from outside says nothing
        (None, Some(9)) => Ok(()),
        _ if c.format == 4
            && c.depth >= 20_000
            && ctx.known("bincode-recursion", "a deeply nested bincode message overflows the stack of read::<M>()") =>
        {
            Ok(())
        }
        _ => Err(format!("{}: the process died ({:?})", what, st)),
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut deep = vec![];
    for format in [2u8, 3, 4] {
        for depth in [1u32, 100, 127, 128, 129, 1_000, 1_000_000] {
            deep.push(Nest { format, depth });
        }
    }
    ctx.each("nesting", deep, |c, o| run_nest(ctx, c, o));
    let mut lens = vec![];
    let stages: &[Stage] =
        ctx.pick(&[Stage::Fresh, Stage::Both, Stage::Waiting, Stage::Done][..], &STAGES[..]);
    for mode in [Mode::Minimal, Mode::Complete] {
        for stage in stages {
            for typ in [0u16, 1, 2, 3] {
                for total in (0..ctx.pick(100u16, 260)).step_by(ctx.pick(if mode == Mode::Complete { 3 } else { 1 }, 1)) {
                    lens.push(Length { mode, stage: *stage, typ, total });
                }
            }
        }
    }
    ctx.each("lengths", lens, run_length);
    ctx.prop("received", ctx.pick(100_000, 4_000_000), || case(30, 4), run_case);
    ctx.prop("calls", ctx.pick(40_000, 1_500_000), || case(8, 14), |c, o| run_case(c, o));
    ctx.finish(
        RULE,
        "exploration",
        &["no allocation fails", "the application's own types do not recurse deeper than the stack allows (see DESIGN.md)"],
    )
}
