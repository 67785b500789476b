//! C03: typed values round-trip in every serialisation format.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::setup::{own_seed, solo, Stage};
use crate::sut::{catch, Layer, Mode, E, R};
use crate::values::{self, text, val, Val};
use crate::wire;
use pkstl::{IncomingMessage, MessageFormat, SecureLayer, Seed32};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::io::BufWriter;

const RULE: &str = "two complete layers exchanging generated values of a recursive type (and of plain strings, byte \
 strings, numbers, unit, options, sequences, types with serde's tagging, flattening and renaming, long and deep values, numbers, maps and types at the limits of a format, whose own library is then the reference) as CONNECT, ACK and user messages, sender and receiver configured for any \
 formats, formats changed on the way; a model peer sending payloads with any four-byte format header. Non-trivial: at \
 least one value was delivered and compared, or a header without typed encoding was refused.";

/// The numbers of the formats with a typed encoding: JSON, CBOR, bincode.
const TYPED: [u8; 3] = [2, 3, 4];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    formats: (u8, u8),
    min_size: usize,
    connect: (Option<Val>, Option<Val>),
    ack: (Option<Val>, Option<Val>),
    /// From A, value, new format of the sender, new format of the receiver.
    msgs: Vec<(bool, Val, Option<u8>, Option<u8>)>,
    seed: u64,
}

fn cfg(format: u8, min_size: usize) -> pkstl::SecureLayerConfig {
    Cfg { level: 1, min_size, format }.get()
}

fn written(f: impl FnOnce(&mut BufWriter<Vec<u8>>) -> pkstl::Result<()>) -> R<Vec<u8>> {
    let mut w = BufWriter::new(Vec::new());
    catch(|| f(&mut w))?;
    Ok(w.into_inner().expect("flush of a Vec"))
}

#[derive(Debug, PartialEq)]
enum T<M> {
    Connect(Option<M>),
    Ack(Option<M>),
    User(Option<M>),
}

fn read<M: Debug + DeserializeOwned>(l: &mut SecureLayer, b: &[u8]) -> R<Vec<T<M>>> {
    Ok(catch(|| l.read::<M>(b))?
        .into_iter()
        .map(|m| match m {
            IncomingMessage::Connect { custom_data, .. } => T::Connect(custom_data),
            IncomingMessage::Ack { custom_data } => T::Ack(custom_data),
            IncomingMessage::Message { data } => T::User(data),
        })
        .collect())
}

fn full(seed: u64, n: u64, c: pkstl::SecureLayerConfig) -> Option<SecureLayer> {
    catch(|| SecureLayer::create(c, Some(Seed32::new(own_seed(seed, n))), None)).ok()
}

/// Sends `v` as `what` and expects it back.
fn same<M: Debug + PartialEq>(what: &str, got: R<Vec<T<M>>>, want: T<M>) -> Result<(), String> {
    match got {
        Ok(v) if v.len() == 1 && v[0] == want => Ok(()),
        Ok(v) => Err(short(format!("{}: reported {:?} instead of {:?}", what, v, want))),
        Err(e) => Err(short(format!("{}: reading {:?}: {}", what, want, e))),
    }
}

fn short(s: String) -> String {
    s.chars().take(600).collect()
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let mut f = c.formats;
    let keys = crate::keypairs::now_and_then(c.seed);
    let make = |n, format| {
        if let Some(k) = &keys {
            entropy::push_fixed(if n == 1 { &k.0 } else { &k.1 });
        }
        full(c.seed, n, cfg(format, c.min_size))
    };
    let (Some(mut a), Some(mut b)) = (make(1, f.0), make(2, f.1)) else {
        return Ok(());
    };
    // CONNECT and ACK, A first
    for (a_sends, v, is_ack) in [
        (true, &c.connect.0, false),
        (false, &c.connect.1, false),
        (true, &c.ack.0, true),
        (false, &c.ack.1, true),
    ] {
        let (s, r) = if a_sends { (&mut a, &mut b) } else { (&mut b, &mut a) };
        let fs = if a_sends { f.0 } else { f.1 };
        let what = if is_ack { "ACK" } else { "CONNECT" };
        let m = written(|w| match is_ack {
            true => s.write_ack_msg(v.as_ref(), w),
            false => s.write_connect_msg(v.as_ref(), w),
        });
        let m = match m {
            Ok(m) if v.is_none() || TYPED.contains(&fs) => m,
            Ok(_) => return Err(format!("a typed {} was written under format {}", what, fs)),
            Err(E::Panic(p)) => return Err(format!("writing a typed {} panicked: {}", what, p)),
            Err(e) if v.is_none() || TYPED.contains(&fs) => {
                return Err(format!("writing a typed {} under format {}: {}", what, fs, e))
            }
            Err(_) => {
                obs.label("refused: no typed encoding");
                // without data instead
                written(|w| match is_ack {
                    true => s.write_ack_msg::<Val, _>(None, w),
                    false => s.write_connect_msg::<Val, _>(None, w),
                })
                .map_err(|e| format!("after a refused typed write: {}", e))?
            }
        };
        let sent = if TYPED.contains(&fs) { v.clone() } else { None };
        let want = if is_ack { T::Ack(sent) } else { T::Connect(sent) };
        same(what, read::<Val>(r, &m), want)?;
    }
    for (i, (from_a, v, fs, fr)) in c.msgs.iter().enumerate() {
        let (s, r) = if *from_a { (&mut a, &mut b) } else { (&mut b, &mut a) };
        let (cs, cr) = if *from_a { (&mut f.0, &mut f.1) } else { (&mut f.1, &mut f.0) };
        if let Some(n) = fs {
            *cs = *n;
            catch(|| s.change_config(cfg(*n, c.min_size))).map_err(|e| format!("change: {}", e))?;
        }
        if let Some(n) = fr {
            *cr = *n;
            catch(|| r.change_config(cfg(*n, c.min_size))).map_err(|e| format!("change: {}", e))?;
        }
        let what = format!("message {} ({} to {})", i, cs, cr);
        match written(|w| s.write(v, w)) {
            Ok(m) if TYPED.contains(cs) => {
                same(&what, read::<Val>(r, &m), T::User(Some(v.clone())))?;
                obs.nontrivial();
                obs.label(["json", "cbor", "bincode"][*cs as usize - 2]);
                if cs != cr {
                    obs.label("receiver in another format");
                }
            }
            Ok(_) => return Err(format!("{}: a typed message was written", what)),
            Err(E::Panic(p)) => return Err(format!("{}: panicked: {}", what, p)),
            Err(e) if TYPED.contains(cs) => {
                return Err(short(format!("{}: writing {:?}: {}", what, v, e)))
            }
            Err(_) => obs.label("refused: no typed encoding"),
        }
    }
    Ok(())
}

fn any_format() -> impl Strategy<Value = u8> {
    prop_oneof![8 => 2u8..5, 1 => 0u8..2]
}

fn case() -> impl Strategy<Value = Case> {
    let ov = || proptest::option::weighted(0.7, val());
    (
        (any_format(), any_format()),
        prop_oneof![Just(0usize), Just(8192), 0usize..100],
        (ov(), ov()),
        (ov(), ov()),
        proptest::collection::vec(
            (
                any::<bool>(),
                val(),
                proptest::option::weighted(0.3, any_format()),
                proptest::option::weighted(0.3, any_format()),
            ),
            1..8,
        ),
        0u64..1 << 40,
    )
        .prop_map(|(formats, min_size, connect, ack, msgs, seed)| Case {
            formats,
            min_size,
            connect,
            ack,
            msgs,
            seed,
        })
}

/// Values of plain types.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain {
    format: u8,
    text: String,
    bytes: Vec<u8>,
    num: u64,
    int: i32,
    opt: Option<u32>,
    list: Vec<String>,
    seed: u64,
}

fn run_plain(c: &Plain, obs: &mut Obs) -> Result<(), String> {
    let Ok(p) = crate::setup::pair(
        Mode::Complete,
        &Cfg { level: 6, min_size: 100, format: c.format },
        &Cfg::default(),
        c.seed,
    ) else {
        return Ok(());
    };
    let (Layer::Full(mut a), Layer::Full(mut b)) = (p.a, p.b) else { unreachable!() };
    fn go<M: Serialize + DeserializeOwned + PartialEq + Debug>(
        a: &mut SecureLayer,
        b: &mut SecureLayer,
        v: M,
    ) -> Result<(), String> {
        let m = written(|w| a.write(&v, w)).map_err(|e| short(format!("writing {:?}: {}", v, e)))?;
        same("plain type", read::<M>(b, &m), T::User(Some(v)))
    }
    go(&mut a, &mut b, c.text.clone())?;
    go(&mut a, &mut b, c.bytes.clone())?;
    go(&mut a, &mut b, c.num)?;
    go(&mut a, &mut b, c.int)?;
    go(&mut a, &mut b, ())?;
    go(&mut a, &mut b, c.opt)?;
    go(&mut a, &mut b, c.list.clone())?;
    go(&mut a, &mut b, (c.num, c.text.clone(), c.int, c.opt))?;
    go(&mut a, &mut b, vec![(); 5])?;
    go(&mut a, &mut b, true)?;
    go(&mut a, &mut b, c.text.chars().next().unwrap_or('x'))?;
    obs.nontrivial();
    obs.extra += 11;
    Ok(())
}

/// Types whose encoding depends on the names of their fields or on the shape of the data.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type", rename_all = "camelCase")]
enum Tagged {
    Leave { room_id: u32, why: Option<String> },
    Ping,
    Pos(Point),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    One(String),
    Two(u8, i16),
    Three { x: Vec<u16> },
    Four,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged {
    Num(i64),
    Text(String),
    List(Vec<Untagged>),
    Point(Point),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Point {
    x: i32,
    #[serde(rename = "why")]
    y: i32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Flat {
    id: u64,
    #[serde(flatten)]
    point: Point,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    note: Option<String>,
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Wrap(u32);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Marker;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Plainly {
    A,
    B(Wrap),
    C { m: Marker, f: f32, i: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shaped {
    format: u8,
    reader: u8,
    text: String,
    num: i32,
    pick: u8,
    keys: std::collections::BTreeMap<u32, bool>,
    long: usize,
    deep: usize,
    seed: u64,
}

fn run_shaped(c: &Shaped, obs: &mut Obs) -> Result<(), String> {
    let Ok(p) = crate::setup::pair(
        Mode::Complete,
        &Cfg { level: 1, min_size: 50, format: c.format },
        &Cfg { level: 1, min_size: 50, format: c.reader },
        c.seed,
    ) else {
        return Ok(());
    };
    let (Layer::Full(mut a), Layer::Full(mut b)) = (p.a, p.b) else { unreachable!() };
    fn go<M: Serialize + DeserializeOwned + PartialEq + Debug>(
        a: &mut SecureLayer,
        b: &mut SecureLayer,
        v: M,
    ) -> Result<(), String> {
        let m = written(|w| a.write(&v, w)).map_err(|e| short(format!("writing {:?}: {}", v, e)))?;
        same("shaped type", read::<M>(b, &m), T::User(Some(v)))
    }
    let (n, t) = (c.num, c.text.clone());
    let point = Point { x: n, y: !n };
    // bincode does not describe itself and cannot decode these
    if c.format != 4 {
        go(&mut a, &mut b, match c.pick % 4 {
            0 => Tagged::Leave { room_id: n as u32, why: None },
            1 => Tagged::Leave { room_id: n as u32, why: Some(t.clone()) },
            2 => Tagged::Ping,
            _ => Tagged::Pos(point.clone()),
        })?;
        go(&mut a, &mut b, match c.pick % 4 {
            0 => Untagged::Num(n as i64),
            1 => Untagged::Text(t.clone()),
            2 => Untagged::List(vec![Untagged::Text(t.clone()), Untagged::Num(n as i64 * 1_000_003)]),
            _ => Untagged::Point(point.clone()),
        })?;
        go(&mut a, &mut b, Flat {
            id: n as u32 as u64,
            point: point.clone(),
            note: (c.pick % 3 == 0).then(|| t.clone()),
            rest: c.keys.iter().map(|(k, v)| (format!("k{}", k), v.to_string())).collect(),
        })?;
        go(&mut a, &mut b, match c.pick % 4 {
            0 => Adjacent::One(t.clone()),
            1 => Adjacent::Two(n as u8, n as i16),
            2 => Adjacent::Three { x: vec![n as u16; c.pick as usize] },
            _ => Adjacent::Four,
        })?;
        obs.extra += 4;
    }
    go(&mut a, &mut b, c.keys.clone())?;
    go(&mut a, &mut b, match c.pick % 3 {
        0 => Plainly::A,
        1 => Plainly::B(Wrap(n as u32)),
        _ => Plainly::C { m: Marker, f: (n >> 10) as f32 / 4.0, i: n as i8 },
    })?;
    go(&mut a, &mut b, (Wrap(1), Marker, [Some(point), None], n as f32 / 1024.0, i64::MIN, u64::MAX))?;
    let unit: &str = ["pkstl ", "\u{e9}\n", "\u{1F512}", "\0"][c.pick as usize % 4];
    go(&mut a, &mut b, unit.repeat(c.long))?;
    go(&mut a, &mut b, vec![n as u16; c.long])?;
    let mut v = Val::Text(t);
    for i in 0..c.deep {
        v = match i % 2 {
            0 => Val::List(vec![v]),
            _ => Val::Opt(Some(Box::new(v))),
        };
    }
    go(&mut a, &mut b, v)?;
    obs.nontrivial();
    obs.extra += 6;
    obs.label(["json", "cbor", "bincode"][c.format as usize - 2]);
    if c.long > 100_000 {
        obs.label("more than 100,000 items");
    }
    Ok(())
}

/// Bytes in serde's own byte string type.
#[derive(Clone, Debug, PartialEq)]
struct Blob(Vec<u8>);

impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(v))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Blob, A::Error> {
                let mut v = vec![];
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// A value whose serialisation fails after `.0` items.
#[derive(Clone, Debug)]
struct Fails(usize);

impl Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut seq = s.serialize_seq(Some(self.0 + 1))?;
        for i in 0..self.0 {
            seq.serialize_element(&i)?;
        }
        Err(serde::ser::Error::custom("not now"))
    }
}

impl<'de> Deserialize<'de> for Fails {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Vec::<usize>::deserialize(d).map(|v| Fails(v.len()))
    }
}

/// Values at the limits of what the formats can express, where the library of the format decides.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limits {
    format: u8,
    reader: u8,
    hi: u64,
    lo: u64,
    text: String,
    bytes: Vec<u8>,
    n: usize,
    seed: u64,
}

/// What the library of the format makes of `v`, printed; nothing if it cannot be encoded.
fn alone<M: Serialize + DeserializeOwned + Debug>(v: &M, format: u8) -> Option<Result<String, ()>> {
    fn show<M: Debug, E>(r: Result<M, E>) -> Result<String, ()> {
        r.map(|v| format!("{:?}", v)).map_err(|_| ())
    }
    Some(match format {
        2 => show(serde_json::from_slice::<M>(&serde_json::to_vec(v).ok()?)),
        3 => show(serde_cbor::from_slice::<M>(&serde_cbor::to_vec(v).ok()?)),
        _ => show(bincode::deserialize::<M>(&bincode::serialize(v).ok()?)),
    })
}

fn run_limits(c: &Limits, obs: &mut Obs) -> Result<(), String> {
    let Ok(p) = crate::setup::pair(
        Mode::Complete,
        &Cfg { level: 1, min_size: 60, format: c.format },
        &Cfg { level: 1, min_size: 60, format: c.reader },
        c.seed,
    ) else {
        return Ok(());
    };
    let (Layer::Full(mut a), Layer::Full(mut b)) = (p.a, p.b) else { unreachable!() };
    fn go<M: Serialize + DeserializeOwned + Debug>(
        c: &Limits,
        a: &mut SecureLayer,
        b: &mut SecureLayer,
        obs: &mut Obs,
        v: M,
    ) -> Result<(), String> {
        let ty = std::any::type_name::<M>();
        obs.extra += 1;
        let written = written(|w| a.write(&v, w));
        let (m, want) = match (written, alone(&v, c.format)) {
            (Err(E::Panic(p)), _) => return Err(format!("{}: panicked: {}", ty, p)),
            (Err(_), None) => {
                obs.label("not expressible in the format, refused");
                return Ok(());
            }
            (Err(e), Some(_)) => return Err(short(format!("{}: writing {:?}: {}", ty, v, e))),
            (Ok(_), None) => return Err(short(format!("{}: {:?} was written", ty, v))),
            (Ok(m), Some(want)) => (m, want),
        };
        if want == Ok(format!("{:?}", v)) {
            obs.label("the library delivers it equal");
        } else {
            obs.label("the library does not deliver it equal");
        }
        match (read::<M>(b, &m), want) {
            (Err(E::Panic(p)), _) => Err(format!("{}: panicked: {}", ty, p)),
            (Err(_), Err(())) => Ok(()),
            (Ok(got), Ok(want)) if got.len() == 1 => match &got[0] {
                T::User(Some(d)) if format!("{:?}", d) == want => Ok(()),
                d => Err(short(format!("{}: {:?} sent, {:?} reported, want {}", ty, v, d, want))),
            },
            (got, want) => Err(short(format!("{}: {:?} sent, {:?} reported, want {:?}", ty, v, got, want))),
        }
    }
    use std::collections::{BTreeMap, BTreeSet};
    let wide = (c.hi as u128) << 64 | c.lo as u128;
    let (f, g) = (f64::from_bits(c.hi), f32::from_bits(c.lo as u32));
    let mut run = |obs: &mut Obs| -> Result<(), String> {
        let (a, b) = (&mut a, &mut b);
        go(c, a, b, obs, wide)?;
        go(c, a, b, obs, wide as i128)?;
        go(c, a, b, obs, Some(wide >> 60))?;
        go(c, a, b, obs, vec![-((wide >> 1) as i128), c.lo as i128])?;
        go(c, a, b, obs, f)?;
        go(c, a, b, obs, g)?;
        go(c, a, b, obs, (f, vec![g, -g], Some(-f)))?;
        go(c, a, b, obs, [f64::NAN, f64::INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX])?;
        go(c, a, b, obs, (c.hi, c.lo as i64, c.hi as u8, c.lo as i16))?;
        go(c, a, b, obs, Some(Some(c.lo)))?;
        go(c, a, b, obs, Some(None::<u8>))?;
        go(c, a, b, obs, Some(()))?;
        go(c, a, b, obs, BTreeMap::from([(c.lo as i64, c.text.clone()), (0, String::new())]))?;
        go(c, a, b, obs, BTreeMap::from([(wide, 1u8), (0, 2)]))?;
        go(c, a, b, obs, BTreeMap::from([((1u8, 2u8), 3u8)]))?;
        go(c, a, b, obs, BTreeMap::from([(c.hi % 2 == 0, 3u8)]))?;
        go(c, a, b, obs, BTreeMap::from([(c.text.clone(), Blob(c.bytes.clone())), ("\u{0}".into(), Blob(vec![]))]))?;
        go(c, a, b, obs, c.text.chars().collect::<BTreeSet<char>>())?;
        go(c, a, b, obs, c.text.chars().map(|k| (k, k as u32)).collect::<BTreeMap<char, u32>>())?;
        go(c, a, b, obs, Blob(c.bytes.clone()))?;
        go(c, a, b, obs, (Blob(c.bytes.clone()), c.text.clone(), Blob(c.text.clone().into_bytes())))?;
        go(c, a, b, obs, std::net::IpAddr::from(c.hi.to_be_bytes()[4..].iter().fold([0u8; 16], |mut x, y| {
            x.rotate_left(1);
            x[15] = *y;
            x
        })))?;
        go(c, a, b, obs, std::net::SocketAddr::from((c.lo.to_be_bytes()[..4].iter().fold([0u8; 4], |mut x, y| {
            x.rotate_left(1);
            x[3] = *y;
            x
        }), c.hi as u16)))?;
        go(c, a, b, obs, std::time::Duration::new(c.hi >> 1, c.lo as u32 % 1_000_000_000))?;
        go(c, a, b, obs, serde_json::json!({
            "n": c.hi, "i": c.lo as i64, "t": c.text, "l": [null, true, {"deep": [[], {}]}], "f": (c.lo as u32) as f64 / 8.0,
        }))?;
        go(c, a, b, obs, c.hi.checked_rem(3).map_or(Err("no".to_string()), |x| if x == 0 { Ok(c.lo) } else { Err(c.text.clone()) }))?;
        go(c, a, b, obs, Fails(c.n))?;
        // whatever was refused: the session is as before
        go(c, a, b, obs, c.text.clone())
    };
    run(obs)?;
    obs.nontrivial();
    obs.label(["json", "cbor", "bincode"][c.format as usize - 2]);
    Ok(())
}

/// Numbers of all magnitudes.
fn number() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => any::<u64>(),
        3 => (any::<u64>(), 0u32..64).prop_map(|(n, s)| n >> s),
        1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1)),
        1 => (any::<u64>(), 0u32..64).prop_map(|(n, s)| !(n >> s)),
        // doubles of moderate size
        1 => any::<i32>().prop_map(|n| (n as f64 / 1000.0).to_bits()),
    ]
}

/// A payload with any header.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Header {
    head: Vec<u8>,
    body_format: u8,
    value: Val,
    /// 0 CONNECT, 1 ACK, 2 user
    kind: u8,
    own_format: u8,
    seed: u64,
}

fn run_header(c: &Header, obs: &mut Obs) -> Result<(), String> {
    let mut payload = c.head.clone();
    if c.head.len() == 4 {
        payload.extend_from_slice(&values::encode(&c.value, c.body_format)[4..]);
    }
    let stage = match c.kind {
        0 => Stage::Sent,
        1 => Stage::Waiting,
        _ => Stage::Done,
    };
    let cfg = Cfg { level: 1, min_size: 8192, format: c.own_format };
    let Ok(s) = solo(Mode::Complete, &cfg, true, stage, c.seed) else { return Ok(()) };
    let Layer::Full(mut l) = s.layer else { unreachable!() };
    let m = match c.kind {
        0 => s.peer.connect(Some(&payload)),
        1 => s.peer.ack(Some(&payload)),
        _ => s.peer.user(0, Some(&payload)),
    };
    let n = match &c.head[..] {
        [0, 0, 0, n] if TYPED.contains(n) => Some(*n),
        _ => None,
    };
    match (read::<Val>(&mut l, &m), n) {
        (Err(E::Panic(p)), _) => Err(format!("header {:?}: panicked: {}", c.head, p)),
        (got, Some(n)) if n == c.body_format => {
            let v = Some(c.value.clone());
            obs.nontrivial();
            obs.label("right header");
            same(
                "header and encoding made elsewhere",
                got,
                match c.kind {
                    0 => T::Connect(v),
                    1 => T::Ack(v),
                    _ => T::User(v),
                },
            )
        }
        (Ok(v), None) => Err(short(format!("header {:?}: reported {:?}", c.head, v))),
        (Err(_), None) => {
            obs.nontrivial();
            obs.label("refused");
            Ok(())
        }
        // another format's bytes under this header: whatever that format's library says
        (Ok(v), Some(_)) => {
            let w = values::decode::<Val>(&payload);
            let u = v.into_iter().next();
            let u = match u {
                Some(T::Connect(x) | T::Ack(x) | T::User(x)) => x,
                None => None,
            };
            if u == w {
                Ok(())
            } else {
                Err(short(format!("header {:?}: reported {:?} for {:?}", c.head, u, w)))
            }
        }
        (Err(_), Some(_)) => Ok(()),
    }
}

fn formats(_: &u8, obs: &mut Obs) -> Result<(), String> {
    let all = [
        (MessageFormat::RawBinary, 0u8),
        (MessageFormat::Utf8PlainText, 1),
        (MessageFormat::Utf8Json, 2),
        (MessageFormat::Cbor, 3),
        (MessageFormat::Bincode, 4),
    ];
    for (f, n) in all {
        if f.as_ref() != values::header(n) {
            return Err(format!("{:?} is written as {:?}", f, f.as_ref()));
        }
        if MessageFormat::try_from(&values::header(n)[..]).ok() != Some(f) {
            return Err(format!("{:?} is not read back", f));
        }
    }
    for n in 0..1u32 << 20 {
        for v in [n, n << 8, n << 12, u32::MAX - n] {
            obs.extra += 1;
            let r = MessageFormat::try_from(&v.to_be_bytes()[..]);
            if r.is_ok() != (v < 5) {
                return Err(format!("format code {:08x} read as {:?}", v, r.ok()));
            }
        }
    }
    for q in crate::dict::quads() {
        for b in 0..32 {
            let v = u32::from_be_bytes(q) ^ (1 << b) >> 1;
            obs.extra += 1;
            let r = MessageFormat::try_from(&v.to_be_bytes()[..]);
            if r.is_ok() != (v < 5) {
                return Err(format!("format code {:08x} read as {:?}", v, r.ok()));
            }
        }
    }
    for len in [0usize, 1, 2, 3, 5, 8] {
        for n in 0..5u8 {
            let mut b = vec![0; len];
            if let Some(l) = b.last_mut() {
                *l = n;
            }
            if MessageFormat::try_from(&b[..]).is_ok() {
                return Err(format!("format code {:?} of {} bytes accepted", b, len));
            }
        }
    }
    obs.nontrivial();
    Ok(())
}

fn head() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        6 => (0u8..6).prop_map(|n| vec![0, 0, 0, n]),
        2 => any::<[u8; 4]>().prop_map(|b| b.to_vec()),
        1 => proptest::sample::select(crate::dict::quads()).prop_map(|b| b.to_vec()),
        3 => (0usize..4, any::<u8>(), 0u8..6).prop_map(|(i, b, n)| {
            let mut h = vec![0, 0, 0, n];
            h[i] = b;
            h
        }),
        2 => proptest::collection::vec(0u8..5, 0..4),
    ]
}

pub fn run(ctx: &Ctx) -> i32 {
    ctx.each("format-codes", vec![0u8], formats);
    let mut all = vec![];
    for pos in 0..4usize {
        for b in 0..=255u8 {
            for kind in 0..3u8 {
                for n in 0..5u8 {
                    let mut h = vec![0, 0, 0, n];
                    h[pos] = b;
                    all.push(Header {
                        head: h,
                        body_format: 2 + (n + 1) % 3,
                        value: Val::Text("abc".into()),
                        kind,
                        own_format: n,
                        seed: 5,
                    });
                }
            }
        }
    }
    ctx.each("header-bytes", all, run_header);
    ctx.prop("values", ctx.pick(30_000, 900_000), case, run_case);
    ctx.prop(
        "plain-types",
        ctx.pick(6_000, 100_000),
        || {
            (
                2u8..5,
                text(),
                proptest::collection::vec(any::<u8>(), 0..3000),
                any::<u64>(),
                any::<i32>(),
                any::<Option<u32>>(),
                proptest::collection::vec(text(), 0..5),
                0u64..1 << 40,
            )
                .prop_map(|(format, text, bytes, num, int, opt, list, seed)| Plain {
                    format,
                    text,
                    bytes,
                    num,
                    int,
                    opt,
                    list,
                    seed,
                })
        },
        run_plain,
    );
    ctx.prop(
        "shaped-types",
        ctx.pick(6_000, 150_000),
        || {
            (
                (2u8..5, any_format()),
                text(),
                any::<i32>(),
                any::<u8>(),
                proptest::collection::btree_map(any::<u32>(), any::<bool>(), 0..5),
                prop_oneof![60 => 0usize..40, 6 => 1000usize..20_000, 1 => 100_000usize..700_000],
                0usize..30,
                0u64..1 << 40,
            )
                .prop_map(|((format, reader), text, num, pick, keys, long, deep, seed)| Shaped {
                    format,
                    reader,
                    text,
                    num,
                    pick,
                    keys,
                    long,
                    deep,
                    seed,
                })
        },
        run_shaped,
    );
    ctx.prop(
        "limits",
        ctx.pick(5_000, 120_000),
        || {
            (
                (2u8..5, any_format()),
                number(),
                number(),
                text(),
                proptest::collection::vec(any::<u8>(), 0..80),
                0usize..300,
                0u64..1 << 40,
            )
                .prop_map(|((format, reader), hi, lo, text, bytes, n, seed)| Limits {
                    format,
                    reader,
                    hi,
                    lo,
                    text,
                    bytes,
                    n,
                    seed,
                })
        },
        run_limits,
    );
    ctx.prop(
        "headers",
        ctx.pick(20_000, 500_000),
        || {
            (head(), 2u8..5, val(), 0u8..3, 0u8..5, 0u64..1 << 40).prop_map(
                |(head, body_format, value, kind, own_format, seed)| Header {
                    head,
                    body_format,
                    value,
                    kind,
                    own_format,
                    seed,
                },
            )
        },
        run_header,
    );
    ctx.finish(RULE, "exploration", &[])
}
