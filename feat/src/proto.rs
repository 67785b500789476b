//! One layer that does what it is told, in whatever features it was built with. Compiled into the
//! harness, where pkstl has all its features, and into the programs with fewer of them (C23).

use crate::entropy;
use pkstl::{Message, MinimalSecureLayer, SecureLayerConfig};
use ring::signature::{Ed25519KeyPair, KeyPair};
use serde::{Deserialize, Serialize};
use std::io::BufWriter;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    Number(i64),
    Pair(u16, bool),
    Named { text: String },
}

/// What the typed messages carry.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    /// Tells the messages of a session apart.
    pub n: u32,
    pub text: String,
    pub bytes: Vec<u8>,
    pub opt: Option<Box<Item>>,
    pub list: Vec<i32>,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Conf {
    pub level: u32,
    pub min_size: usize,
    /// 0 raw, 1 text, 2 json, 3 cbor, 4 bincode
    pub format: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect(Option<Vec<u8>>),
    Ack(Option<Vec<u8>>),
    Write(Vec<u8>),
    Read(Vec<u8>),
    /// Many messages, one after the other.
    ReadMany(Vec<Vec<u8>>),
    ConnectT(Option<Item>),
    AckT(Option<Item>),
    WriteT(Item),
    ReadT(Vec<u8>),
    /// What is held, on request (minimal mode).
    Take,
    Drain,
    Config(Conf),
    /// Goes on with a clone.
    Clone,
    /// A random seed.
    Seed,
    /// The text of the debug format of the configuration and of the layer says nothing of its
    /// own: only that it does not panic.
    Debug,
}

/// Everything one layer is told.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub complete: bool,
    /// None: the default configuration.
    pub conf: Option<Conf>,
    /// None: drawn at random (complete mode).
    pub id: Option<[u8; 32]>,
    pub expected: Option<Vec<u8>>,
    pub salt: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Data {
    No,
    Raw(Vec<u8>),
    Typed(Item),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Got {
    Connect(Vec<u8>, Data),
    Ack(Data),
    User(Data),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ans {
    Done,
    Bytes(Vec<u8>),
    Got(Vec<Got>),
    /// For each message how many are reported; 254: an error, 255: a panic.
    Many(Vec<u8>),
    Err,
    Panic(String),
    /// This program was built without it.
    Missing,
}

fn raw(d: Option<Vec<u8>>) -> Data {
    d.map_or(Data::No, Data::Raw)
}

fn got_min(m: Message) -> Got {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => Got::Connect(sig_pubkey, raw(custom_data)),
        Message::Ack { custom_data } => Got::Ack(raw(custom_data)),
        Message::Message { custom_data } => Got::User(raw(custom_data)),
    }
}

#[cfg(feature = "ser")]
fn format(n: u8) -> Option<pkstl::MessageFormat> {
    match n {
        0 => Some(pkstl::MessageFormat::RawBinary),
        1 => Some(pkstl::MessageFormat::Utf8PlainText),
        #[cfg(feature = "json")]
        2 => Some(pkstl::MessageFormat::Utf8Json),
        #[cfg(feature = "cbor")]
        3 => Some(pkstl::MessageFormat::Cbor),
        #[cfg(feature = "bin")]
        4 => Some(pkstl::MessageFormat::Bincode),
        _ => None,
    }
}

/// As much of it as this program has.
fn config(c: &Option<Conf>) -> Option<SecureLayerConfig> {
    #[allow(unused_mut)]
    let mut r = SecureLayerConfig::default();
    if let Some(c) = c {
        let _ = c;
        #[cfg(feature = "zip")]
        {
            r.compression = flate2::Compression::new(c.level);
            r.compression_min_size = c.min_size;
        }
        #[cfg(feature = "ser")]
        {
            r.message_format = format(c.format)?;
        }
    }
    Some(r)
}

fn caught(f: impl FnOnce() -> pkstl::Result<Ans>) -> Ans {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => {
            // errors can be shown
            match catch_unwind(AssertUnwindSafe(|| format!("{:?}", e).len())) {
                Ok(_) => Ans::Err,
                Err(_) => Ans::Panic("showing an error".into()),
            }
        }
        Err(p) => Ans::Panic(
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

fn sign(mut b: Vec<u8>, id: &Ed25519KeyPair) -> Vec<u8> {
    let s = id.sign(&b);
    b.extend_from_slice(s.as_ref());
    b
}

enum Layer {
    Min(MinimalSecureLayer, Ed25519KeyPair),
    #[cfg(feature = "zip")]
    Full(pkstl::SecureLayer),
}

pub struct Runner {
    salt: u64,
    at: u64,
    layer: Option<Layer>,
}

impl Runner {
    pub fn create(s: &Script) -> (Runner, Ans) {
        entropy::set(s.salt);
        let mut r = Runner { salt: s.salt, at: 0, layer: None };
        let a = r.create_inner(s);
        entropy::off();
        (r, a)
    }
    fn create_inner(&mut self, s: &Script) -> Ans {
        let Some(cfg) = config(&s.conf) else { return Ans::Missing };
        if s.complete {
            #[cfg(feature = "zip")]
            {
                let seed = s.id.map(pkstl::Seed32::new);
                return caught(|| {
                    self.layer = Some(Layer::Full(pkstl::SecureLayer::create(cfg, seed, s.expected.clone())?));
                    Ok(Ans::Done)
                });
            }
            #[cfg(not(feature = "zip"))]
            return Ans::Missing;
        }
        let Ok(id) = Ed25519KeyPair::from_seed_unchecked(&s.id.unwrap_or_default()) else { return Ans::Missing };
        caught(|| {
            self.layer = Some(Layer::Min(MinimalSecureLayer::create(cfg, s.expected.clone())?, id));
            Ok(Ans::Done)
        })
    }
    pub fn step(&mut self, op: &Op) -> Ans {
        self.at += 1;
        entropy::set(self.salt.wrapping_mul(31).wrapping_add(self.at));
        let Some(mut l) = self.layer.take() else { return Ans::Missing };
        let a = Self::act(&mut l, op);
        self.layer = Some(l);
        entropy::off();
        a
    }
    fn act(l: &mut Layer, op: &Op) -> Ans {
        if let Op::Seed = op {
            return caught(|| Ok(Ans::Bytes(pkstl::Seed32::random().as_ref().to_vec())));
        }
        if let Op::ReadMany(v) = op {
            return Ans::Many(
                v.iter()
                    .map(|b| {
                        let a = match l {
                            Layer::Min(m, _) => caught(|| Ok(Ans::Got(m.read(b)?.into_iter().map(got_min).collect()))),
                            #[cfg(feature = "zip")]
                            Layer::Full(m) => full(m, &Op::Read(b.clone())),
                        };
                        match a {
                            Ans::Got(g) => g.len().min(200) as u8,
                            Ans::Panic(_) => 255,
                            _ => 254,
                        }
                    })
                    .collect(),
            );
        }
        match l {
            Layer::Min(m, id) => match op {
                Op::Connect(d) => {
                    let key = id.public_key().as_ref().to_vec();
                    caught(|| Ok(Ans::Bytes(sign(m.create_connect_message(&key, d.as_deref())?, id))))
                }
                Op::Ack(d) => caught(|| Ok(Ans::Bytes(sign(m.create_ack_message(d.as_deref())?, id)))),
                Op::Write(d) => {
                    let mut w = BufWriter::new(Vec::new());
                    caught(|| {
                        m.write_message(d, &mut w)?;
                        Ok(Ans::Bytes(w.into_inner().expect("flush")))
                    })
                }
                Op::Read(b) => caught(|| Ok(Ans::Got(m.read(b)?.into_iter().map(got_min).collect()))),
                Op::Take => caught(|| Ok(Ans::Got(m.take_ack_msg_recv_too_early()?.into_iter().map(got_min).collect()))),
                Op::Drain => caught(|| Ok(Ans::Got(m.drain_tmp_stack_user_msgs()?.into_iter().map(got_min).collect()))),
                Op::Config(c) => match config(&Some(c.clone())) {
                    None => Ans::Missing,
                    Some(c) => caught(|| m.change_config(c).map(|_| Ans::Done)),
                },
                Op::Clone => caught(|| {
                    let c = m.try_clone()?;
                    *m = c;
                    Ok(Ans::Done)
                }),
                Op::Debug => caught(|| {
                    let _ = format!("{:?} {:?}", m, SecureLayerConfig::default());
                    Ok(Ans::Done)
                }),
                _ => Ans::Missing,
            },
            #[cfg(feature = "zip")]
            Layer::Full(m) => full(m, op),
        }
    }
}

#[cfg(feature = "zip")]
fn got_bin(m: pkstl::IncomingBinaryMessage) -> Got {
    use pkstl::IncomingBinaryMessage::*;
    match m {
        Connect { custom_data, peer_sig_public_key } => Got::Connect(peer_sig_public_key, raw(custom_data)),
        Ack { custom_data } => Got::Ack(raw(custom_data)),
        Message { data } => Got::User(raw(data)),
    }
}

#[cfg(feature = "zip")]
fn full(m: &mut pkstl::SecureLayer, op: &Op) -> Ans {
    let mut w = BufWriter::new(Vec::new());
    let mut written = |f: &mut dyn FnMut(&mut BufWriter<Vec<u8>>) -> pkstl::Result<()>| {
        caught(|| {
            f(&mut w)?;
            let w = std::mem::replace(&mut w, BufWriter::new(Vec::new()));
            Ok(Ans::Bytes(w.into_inner().expect("flush")))
        })
    };
    match op {
        Op::Connect(d) => written(&mut |w| m.write_connect_msg_bin(d.as_deref(), w)),
        Op::Ack(d) => written(&mut |w| m.write_ack_msg_bin(d.as_deref(), w)),
        Op::Write(d) => written(&mut |w| m.write_bin(d, w)),
        Op::Read(b) => caught(|| Ok(Ans::Got(m.read_bin(b)?.into_iter().map(got_bin).collect()))),
        Op::Config(c) => match config(&Some(c.clone())) {
            None => Ans::Missing,
            Some(c) => caught(|| m.change_config(c).map(|_| Ans::Done)),
        },
        Op::Clone => caught(|| {
            let c = m.try_clone()?;
            *m = c;
            Ok(Ans::Done)
        }),
        Op::Debug => caught(|| {
            let _ = format!("{:?} {:?}", m, SecureLayerConfig::default());
            Ok(Ans::Done)
        }),
        #[cfg(feature = "ser")]
        Op::ConnectT(d) => written(&mut |w| m.write_connect_msg(d.as_ref(), w)),
        #[cfg(feature = "ser")]
        Op::AckT(d) => written(&mut |w| m.write_ack_msg(d.as_ref(), w)),
        #[cfg(feature = "ser")]
        Op::WriteT(d) => written(&mut |w| m.write(d, w)),
        #[cfg(feature = "ser")]
        Op::ReadT(b) => caught(|| {
            use pkstl::IncomingMessage::*;
            let t = |d: Option<Item>| d.map_or(Data::No, Data::Typed);
            Ok(Ans::Got(
                m.read::<Item>(b)?
                    .into_iter()
                    .map(|m| match m {
                        Connect { custom_data, peer_sig_public_key } => Got::Connect(peer_sig_public_key, t(custom_data)),
                        Ack { custom_data } => Got::Ack(t(custom_data)),
                        Message { data } => Got::User(t(data)),
                    })
                    .collect(),
            ))
        }),
        _ => Ans::Missing,
    }
}

/// The whole script.
pub fn run(s: &Script) -> Vec<Ans> {
    let (mut r, a) = Runner::create(s);
    let mut out = vec![a];
    out.extend(s.ops.iter().map(|op| r.step(op)));
    out
}
