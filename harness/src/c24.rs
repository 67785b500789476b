//! C24: errors name what is wrong.

use crate::driver::{Ctx, Obs};
use crate::gen::*;
use crate::refcrypto::{sha256, Identity, SessionKey};
use crate::setup::{solo, Solo, Stage, HELD_NONCE};
use crate::sink::Sink;
use crate::sut::{self, Layer, Mode, E, R};
use crate::values;
use crate::wire;
use pkstl::SecureLayer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufWriter;

const RULE: &str = "one message with exactly one thing wrong, otherwise flawless and signed, hashed and sealed by the right keys, \
 or one call that is refused for exactly one reason, at a layer in any stage in which that is so; contents, sizes, \
 configurations, positions and values of the wrong part generated. The oracle is a table from what is wrong to the \
 documented error; where several names fit, any of them. Non-trivial: the call was refused.";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Connect,
    Ack,
    User,
}
use Kind::*;
const KINDS3: [Kind; 3] = [Connect, Ack, User];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Flaw {
    Magic,
    Version,
    Type,
    SigAlgo,
    /// Length announced beyond the end of the message.
    LenBeyond,
    /// Length announced smaller than the type's own fields.
    LenBelow,
    /// Length announced a little more or less than it is, signed or hashed so.
    LenOff,
    /// The message stops within its headers.
    CutHeaders,
    /// It stops within its data.
    CutData,
    /// It stops within its signature or hash.
    CutEnd,
    EndBit,
    /// Bytes behind the signature or hash.
    Trailing,
    /// A bit of the data changed after signing or hashing.
    DataBit,
    /// Signed by another key than the one it names.
    OtherSigner,
    /// In clear for a user message, sealed for the others.
    Encryption,
    /// A bit of the sealed message.
    SealedBit,
    SealedCut,
    SealedMore,
    OtherKey,
    /// Bytes that are no message at all.
    Garbage,
    /// Names another key than expected.
    UnexpectedKey,
    LowOrder,
    Challenge,
    /// Nothing is wrong with the message: it comes twice, too early, or after a failure.
    Twice,
    TooEarly,
    AfterFailure,
    /// Its data field is no deflate stream.
    Inflate,
    /// Typed: a format that does not exist, one without typed encoding, data that is no such encoding, data of
    /// less than four bytes.
    UnknownFormat,
    RawFormat,
    Undecodable,
    ShortFormat,
}
const FLAWS: [Flaw; 31] = [
    Flaw::Magic, Flaw::Version, Flaw::Type, Flaw::SigAlgo, Flaw::LenBeyond, Flaw::LenBelow, Flaw::LenOff, Flaw::CutHeaders,
    Flaw::CutData, Flaw::CutEnd, Flaw::EndBit, Flaw::Trailing, Flaw::DataBit, Flaw::OtherSigner, Flaw::Encryption,
    Flaw::SealedBit, Flaw::SealedCut, Flaw::SealedMore, Flaw::OtherKey, Flaw::Garbage, Flaw::UnexpectedKey, Flaw::LowOrder,
    Flaw::Challenge, Flaw::Twice, Flaw::TooEarly, Flaw::AfterFailure, Flaw::Inflate, Flaw::UnknownFormat, Flaw::RawFormat,
    Flaw::Undecodable, Flaw::ShortFormat,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Call {
    Connect,
    Ack,
    Write,
    Clone,
    Config,
    /// Typed user message in a format without typed encoding.
    TypedRaw,
    /// Of a value that refuses to be serialised.
    Unserialisable,
    /// User message, CONNECT, ACK onto a sink that fails.
    Sink,
    SinkConnect,
    SinkAck,
}
const CALLS: [Call; 10] = [
    Call::Connect, Call::Ack, Call::Write, Call::Clone, Call::Config, Call::TypedRaw, Call::Unserialisable, Call::Sink,
    Call::SinkConnect, Call::SinkAck,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum What {
    Receive(Kind, Flaw),
    Call(Call),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    what: What,
    /// Index into the stages in which it is the only thing wrong.
    stage: u8,
    cfg: Cfg,
    seed: u64,
    data: Payload,
    x: u64,
}

/// The stages in which it is the only thing wrong; with an expected key or without.
fn stages(mode: Mode, w: What) -> Vec<(Stage, bool)> {
    use Stage::*;
    let both = |s: &[Stage]| -> Vec<(Stage, bool)> { s.iter().flat_map(|s| [(*s, false), (*s, true)]).collect() };
    let connect_due = both(&[Fresh, Sent]);
    let ack_due = || {
        let mut v = both(&[Both, Waiting]);
        v.push((Sent, true));
        v
    };
    let user_due = both(&[Done, Cloned]);
    let complete = mode == Mode::Complete;
    match w {
        What::Receive(k, f) => match (k, f) {
            (Connect, Flaw::Magic | Flaw::Challenge) | (Ack, Flaw::Magic | Flaw::SigAlgo | Flaw::LowOrder) => vec![],
            (User, Flaw::SigAlgo | Flaw::OtherSigner | Flaw::UnexpectedKey | Flaw::LowOrder | Flaw::Challenge) => vec![],
            (Ack, Flaw::UnexpectedKey) => vec![],
            (_, Flaw::SealedBit | Flaw::SealedCut | Flaw::SealedMore | Flaw::OtherKey) if k != User => vec![],
            (_, Flaw::Inflate | Flaw::UnknownFormat | Flaw::RawFormat | Flaw::Undecodable | Flaw::ShortFormat) if !complete => vec![],
            (Connect, Flaw::UnexpectedKey) => vec![(Fresh, true), (Sent, true)],
            // there is no key to open anything with before
            (Connect, Flaw::Encryption) => vec![],
            // without a key to check it with it is kept, for nothing
            (Ack, Flaw::AfterFailure) => vec![(Failed, true)],
            (_, Flaw::AfterFailure) => both(&[Failed]),
            (Connect, Flaw::Twice) => both(&[Heard, Both, Waiting, Acked, Holding, Done, Cloned]),
            (Ack, Flaw::Twice) => {
                // a clone does not know the key either
                let mut v = both(&[Acked, Done]);
                v.push((EarlyAck, false));
                v
            }
            (User, Flaw::Twice) => both(&[Done, Cloned, Holding]),
            (Connect, Flaw::TooEarly) => vec![],
            (Ack, Flaw::TooEarly) => vec![],
            (User, Flaw::TooEarly) => both(&[Fresh, Sent, Both, Acked]),
            (Connect, Flaw::Garbage) => both(&[Fresh, Sent]),
            (Ack, Flaw::Garbage) => vec![],
            (User, Flaw::Magic | Flaw::Version | Flaw::Type | Flaw::LenBeyond | Flaw::LenBelow | Flaw::CutHeaders | Flaw::CutData)
            | (User, Flaw::SealedBit | Flaw::SealedCut | Flaw::SealedMore | Flaw::OtherKey | Flaw::Garbage | Flaw::Encryption) => {
                both(&[Done, Cloned, Waiting, Holding])
            }
            (Connect, _) => connect_due,
            (Ack, Flaw::Encryption) => both(&[Both, Waiting]),
            (Ack, _) => ack_due(),
            (User, _) => user_due,
        },
        What::Call(c) => match c {
            Call::Connect => both(&[Sent, Both, Waiting, Acked, Holding, Done, Cloned, Failed]),
            Call::Ack => both(&[Fresh, Sent, Waiting, Holding, Done, Cloned, Failed]),
            Call::Write => both(&[Fresh, Sent, Heard, Both, Waiting, Acked, Holding, Failed]),
            Call::Clone => both(&[Fresh, Sent, Heard, Both, Waiting, Acked, Holding, Failed]),
            Call::Config => both(&[Done, Cloned]),
            Call::TypedRaw | Call::Unserialisable if complete => user_due,
            Call::TypedRaw | Call::Unserialisable => vec![],
            Call::Sink => user_due,
            Call::SinkConnect if complete => both(&[Fresh, Heard]),
            Call::SinkAck if complete => both(&[Both, Acked]),
            _ => vec![],
        },
    }
}

/// The names that fit. A name ending in a parenthesis carries something unnamed.
fn names(w: What, s: Stage) -> &'static [&'static str] {
    const SHORT: &[&str] = &["RecvInvalidMsg(MessageTooShort)"];
    const SIG: &[&str] = &["RecvInvalidMsg(InvalidHashOrSig)"];
    let keyless = matches!(s, Stage::Fresh | Stage::Sent | Stage::EarlyAck);
    match w {
        What::Receive(k, f) => match f {
            Flaw::Magic => &["RecvInvalidMsg(InvalidMagicValue)"],
            Flaw::Version => &["RecvInvalidMsg(UnsupportedVersion)"],
            Flaw::Type => &["RecvInvalidMsg(UnknownMessageType)"],
            Flaw::SigAlgo => &["RecvInvalidMsg(UnsupportedSigAlgo)"],
            Flaw::LenBeyond | Flaw::LenBelow | Flaw::CutHeaders | Flaw::CutData | Flaw::ShortFormat => SHORT,
            Flaw::LenOff | Flaw::CutEnd | Flaw::EndBit | Flaw::Trailing | Flaw::DataBit | Flaw::OtherSigner => SIG,
            Flaw::Encryption => &["RecvInvalidMsg(UnexpectedEncryptionState)"],
            Flaw::Garbage if keyless => &["RecvInvalidMsg(UnexpectedMessage)"],
            Flaw::SealedBit | Flaw::SealedMore | Flaw::OtherKey => &["FailToDecryptData("],
            // it may be shorter than a tag
            Flaw::SealedCut | Flaw::Garbage => &["FailToDecryptData(", "RecvInvalidMsg(MessageTooShort)"],
            Flaw::UnexpectedKey => &["UnexpectedRemoteSigPubKey"],
            Flaw::LowOrder => &["FailToComputeAgreement"],
            Flaw::Challenge => &["RecvInvalidMsg(InvalidChallenge)"],
            Flaw::Twice => match k {
                Connect => &["RecvInvalidMsg(UnexpectedConnectMsg)"],
                Ack => &["RecvInvalidMsg(UnexpectedAckMsg)"],
                User => &["RecvInvalidMsg(InvalidNonce)"],
            },
            Flaw::TooEarly => &["RecvInvalidMsg(UnexpectedMessage)"],
            // what it would have been refused for anyway also fits
            Flaw::AfterFailure => match k {
                Connect => &["ConnectionHadFail"],
                _ => &["ConnectionHadFail", "RecvInvalidMsg(UnexpectedMessage)", "RecvInvalidMsg(UnexpectedAckMsg)", "RecvInvalidMsg(InvalidChallenge)"],
            },
            Flaw::Inflate => &["ZipError("],
            Flaw::UnknownFormat => &["RecvInvalidMsg(UnknownMessageFormat)"],
            Flaw::RawFormat => &["SerdeError(UseSuffixedBinFunctions)"],
            Flaw::Undecodable => &["SerdeError("],
        },
        What::Call(c) => match (c, s) {
            (Call::Connect | Call::Ack | Call::Write, Stage::Failed) => &["ConnectionHadFail"],
            (Call::Clone, Stage::Failed) => &["NegoMustHaveBeenSuccessful", "ConnectionHadFail"],
            (Call::Connect, _) => &["ConnectMsgAlreadyWritten"],
            // a clone has no key to sign it with
            (Call::Ack, Stage::Cloned) => &["ForbidWriteAckMsgNow", "ConnectMsgAlreadyWritten"],
            (Call::Ack, _) => &["ForbidWriteAckMsgNow"],
            (Call::Write, _) => &["NegoMustHaveBeenSuccessful", "TryToWriteMsgWhenNegoNotSuccessful"],
            (Call::Clone, _) => &["NegoMustHaveBeenSuccessful"],
            (Call::Config, _) => &["ForbidChangeConfAfterClone"],
            (Call::TypedRaw, _) => &["SerdeError(UseSuffixedBinFunctions)"],
            (Call::Unserialisable, _) => &["SerdeError(", "SerializationError("],
            (Call::Sink, _) => &["WriteError(", "BufferFlushError", "FailToEncryptData("],
            (Call::SinkConnect | Call::SinkAck, _) => &["WriteError(", "BufferFlushError"],
        },
    }
}

fn fits(e: &str, names: &[&str]) -> bool {
    names.iter().any(|n| if n.ends_with('(') { e.starts_with(n) } else { e == *n })
}

struct Refusing;
impl Serialize for Refusing {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("a value that cannot be serialised"))
    }
}

/// Points of small order and the like: no agreement can be made with them.
fn low_order(x: u64) -> [u8; 32] {
    let mut p = [0u8; 32];
    match x % 7 {
        0 => {}
        1 => p[0] = 1,
        // p - 1, p, p + 1
        k @ 2..=4 => {
            p = [0xFF; 32];
            p[31] = 0x7F;
            p[0] = 0xEC + (k as u8 - 2);
        }
        5 => {
            p = [
                0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d,
                0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
            ]
        }
        _ => {
            p = [
                0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c,
                0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57,
            ]
        }
    }
    p
}

/// The flawed message, and whether it is to be read typed.
fn message(s: &Solo, c: &Case, kind: Kind, flaw: Flaw, stage: Stage) -> Option<(Vec<u8>, bool)> {
    let mut st = c.x ^ 0xC24;
    let mut r = |n: u64| splitmix(&mut st) % n.max(1);
    let hdr = [86usize, 50, 26][kind as usize];
    let plain = c.data.bytes();
    let header = |f: u32| f.to_be_bytes();
    let mut typed = false;
    let mut d = match flaw {
        Flaw::UnknownFormat => {
            typed = true;
            let f = [5u32, 6, 0xFF, 0x100, 0x0400_0000, u32::MAX, 5 + r(1000) as u32][r(7) as usize];
            s.peer.pack(Some(&[&header(f)[..], &plain].concat()))
        }
        Flaw::RawFormat => {
            typed = true;
            s.peer.pack(Some(&[&header(r(2) as u32)[..], &plain].concat()))
        }
        Flaw::Undecodable => {
            typed = true;
            // a text where a list of numbers must be, or nothing at all
            let f = 2 + r(3) as u8;
            let mut v = values::encode(&"no list of bytes".to_string(), f);
            if f == 2 || r(2) == 0 {
                v.truncate(4 + r(4) as usize);
            }
            s.peer.pack(Some(&v))
        }
        Flaw::ShortFormat => {
            typed = true;
            s.peer.pack(Some(&[&[0u8, 0, 0][..], &[]].concat()[..r(4) as usize]))
        }
        Flaw::Inflate => {
            match r(5) {
                0 => {
                    // a block of a type that does not exist
                    let mut v = vec![[0x07u8, 0x06, 0xFF][r(3) as usize]];
                    v.extend(plain.iter().take(50));
                    v
                }
                1 => {
                    // a stored block whose lengths contradict each other
                    let mut v = wire::deflate(&[&plain[..], b"."].concat(), 0);
                    v[3] ^= 1 << r(8);
                    v
                }
                2 => {
                    // it refers to what is before its begin
                    let mut v = vec![0x4b, 0x04, 0x42];
                    v.extend([0xFF; 20]);
                    v
                }
                3 => {
                    // stops early
                    let mut v = s.peer.pack(Some(&[&plain[..], b"more"].concat()));
                    v.truncate(1 + r(v.len() as u64 - 2) as usize);
                    v
                }
                _ => (0..1 + r(100)).map(|_| r(256) as u8).collect(),
            }
        }
        _ => s.peer.pack(Some(&plain)),
    };
    if matches!(flaw, Flaw::CutData | Flaw::DataBit) && d.is_empty() {
        // something to be wrong
        d = s.peer.pack(Some(b"data"));
    }
    let epk = if flaw == Flaw::LowOrder { low_order(c.x) } else { s.peer.epk };
    let other = Identity::of(c.x ^ 0x0DD);
    let named = if flaw == Flaw::UnexpectedKey { &other } else { &s.peer.id };
    let nonce = match flaw {
        Flaw::Twice if stage == Stage::Holding => HELD_NONCE,
        Flaw::Twice => c.x % 4,
        _ => [0, 1, 7, c.x % 5000, c.x][r(5) as usize].min(u64::MAX - 1),
    };
    if nonce == HELD_NONCE && stage == Stage::Holding && flaw != Flaw::Twice {
        return None;
    }
    let mut body = match kind {
        Connect => wire::connect_body(&epk, &named.pk(), &d),
        Ack => wire::ack_body(&s.peer.remote_epk.unwrap_or([9; 32]), &d),
        User => wire::user_body(nonce, &d),
    };
    let len = (body.len() - 16) as u64;
    let end_len = if kind == User { 32 } else { 64 };
    match flaw {
        Flaw::Magic => body[r(4) as usize] ^= 1 << r(8),
        Flaw::Version => match r(3) {
            0 => body[4 + r(4) as usize] ^= 1 << r(8),
            1 => body[7] = 2,
            _ => body[4..8].copy_from_slice(&(2 + r(u32::MAX as u64 - 2) as u32).to_be_bytes()),
        },
        Flaw::Type => {
            let t = [3, 4, 0x100, 0x200, 0xFFFF, 3 + r(0xFFFC) as u16][r(6) as usize];
            body[16..18].copy_from_slice(&t.to_be_bytes());
        }
        Flaw::SigAlgo => match r(2) {
            0 => body[50 + r(4) as usize] ^= 1 << r(8),
            _ => body[50..54].copy_from_slice(&(1 + r(u32::MAX as u64) as u32).to_be_bytes()),
        },
        Flaw::LenBeyond => {
            let l = match r(4) {
                0 => len + end_len + 1,
                1 => len + end_len + 1 + r(100_000),
                2 => u64::MAX - r(40),
                _ => (len + end_len + 1).max(1 << (8 + r(56))),
            };
            body[8..16].copy_from_slice(&l.to_be_bytes());
        }
        Flaw::LenBelow => body[8..16].copy_from_slice(&r(hdr as u64 - 16).to_be_bytes()),
        Flaw::LenOff => {
            let more = 1 + r(end_len);
            let less = (1 + r(40)).min(d.len() as u64);
            let l = if less == 0 || r(2) == 0 { len + more } else { len - less };
            body[8..16].copy_from_slice(&l.to_be_bytes());
        }
        Flaw::Challenge => {
            if r(3) == 0 {
                // the answer to itself
                let own = sha256(&s.peer.epk);
                body[18..50].copy_from_slice(&own);
            } else {
                body[18 + r(32) as usize] ^= 1 << r(8);
            }
        }
        _ => {}
    }
    let mut m = match kind {
        User => wire::hashed(body),
        _ if flaw == Flaw::OtherSigner => wire::signed(body, if r(2) == 0 { &other } else { &s.own }),
        _ => wire::signed(body, named),
    };
    let n = m.len();
    let data_at = hdr..n - end_len as usize;
    match flaw {
        Flaw::CutHeaders => m.truncate(4 + r(hdr as u64 - 4) as usize),
        Flaw::CutData => m.truncate(data_at.start + r((data_at.end - data_at.start) as u64) as usize),
        Flaw::CutEnd => m.truncate(data_at.end + r(end_len) as usize),
        Flaw::EndBit => m[n - 1 - r(end_len) as usize] ^= 1 << r(8),
        Flaw::Trailing => {
            for _ in 0..1 + r(70) {
                m.push(r(256) as u8 * (c.x % 2) as u8);
            }
        }
        Flaw::DataBit => m[data_at.start + r((data_at.end - data_at.start) as u64) as usize] ^= 1 << r(8),
        _ => {}
    }
    let key = s.peer.key.unwrap_or(SessionKey([5; 48]));
    let sealed = (kind == User) != (flaw == Flaw::Encryption);
    if sealed {
        m = match flaw {
            Flaw::OtherKey => {
                let mut k = key;
                k.0[r(48) as usize] ^= 1 << r(8);
                k.seal(&m)
            }
            _ => key.seal(&m),
        };
        let n = m.len();
        match flaw {
            Flaw::SealedBit => m[r(n as u64) as usize] ^= 1 << r(8),
            Flaw::SealedCut => m.truncate(r(n as u64) as usize),
            Flaw::SealedMore => {
                for _ in 0..1 + r(40) {
                    m.push(r(256) as u8);
                }
            }
            _ => {}
        }
    }
    if flaw == Flaw::Garbage {
        m = (0..r(300)).map(|_| r(256) as u8).collect();
    }
    if m.starts_with(&wire::MAGIC) && sealed {
        return None;
    }
    Some((m, typed))
}

fn receive(s: &mut Solo, m: &[u8], typed: bool) -> R<usize> {
    match &mut s.layer {
        Layer::Full(l) if typed => sut::catch(|| l.read::<Vec<u8>>(m)).map(|v| v.len()),
        l => l.read(m).map(|v| v.len()),
    }
}

fn call(s: &mut Solo, c: &Case, what: Call) -> R<()> {
    let d = c.data.bytes();
    let opt = if c.x % 3 == 0 { None } else { Some(&d[..]) };
    let full = |l: &mut Layer, f: &mut dyn FnMut(&mut SecureLayer) -> pkstl::Result<()>| match l {
        Layer::Full(l) => sut::catch(|| f(l)),
        _ => Ok(()),
    };
    let typed = c.x % 2 == 1 && c.mode == Mode::Complete && c.cfg.format >= 2;
    match what {
        Call::Connect if typed => full(&mut s.layer, &mut |l| l.write_connect_msg(opt.map(|d| d.to_vec()).as_ref(), &mut BufWriter::new(vec![]))),
        Call::Ack if typed => full(&mut s.layer, &mut |l| l.write_ack_msg(opt.map(|d| d.to_vec()).as_ref(), &mut BufWriter::new(vec![]))),
        Call::Write if typed => full(&mut s.layer, &mut |l| l.write(&d.to_vec(), &mut BufWriter::new(vec![]))),
        Call::Connect => s.layer.connect(opt).map(|_| ()),
        Call::Ack => s.layer.ack(opt).map(|_| ()),
        Call::Write => s.layer.write(&d).map(|_| ()),
        Call::Clone => s.layer.try_clone().map(|_| ()),
        Call::Config => {
            let first = s.layer.try_clone();
            let clone = if c.x % 2 == 0 { Some(first?) } else { None };
            let cfg = Cfg { level: (c.cfg.level + 1) % 10, ..c.cfg };
            match clone {
                Some(mut k) if c.x % 4 == 0 => k.change_config(cfg.get()),
                _ => s.layer.change_config(cfg.get()),
            }
        }
        Call::TypedRaw => {
            full(&mut s.layer, &mut |l| l.write(&d.to_vec(), &mut BufWriter::new(vec![])))
        }
        Call::Unserialisable => {
            full(&mut s.layer, &mut |l| l.write(&Refusing, &mut BufWriter::new(vec![])))
        }
        Call::Sink => {
            let mut k = Sink::failing((c.x % 30) as usize, (c.x / 30 % 12) as u8);
            s.layer.write_to(&d, &mut k)
        }
        Call::SinkConnect | Call::SinkAck => full(&mut s.layer, &mut |l| {
            let k = Sink::failing((c.x % 70) as usize, (c.x / 70 % 12) as u8);
            let mut w = BufWriter::with_capacity(16, k);
            let r = if what == Call::SinkConnect { l.write_connect_msg_bin(opt, &mut w) } else { l.write_ack_msg_bin(opt, &mut w) };
            let _ = w.into_parts();
            r
        }),
    }
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let all = stages(c.mode, c.what);
    if all.is_empty() {
        obs.label("does not exist");
        return Ok(());
    }
    let (stage, expect) = all[c.stage as usize % all.len()];
    let format = match c.what {
        What::Call(Call::TypedRaw) => (c.x % 2) as u8,
        What::Call(Call::Unserialisable) => 2 + (c.x % 3) as u8,
        _ => c.cfg.format,
    };
    let Ok(mut s) = solo(c.mode, &Cfg { format, ..c.cfg }, expect, stage, c.seed) else {
        obs.label("no session");
        return Ok(());
    };
    let r = match c.what {
        What::Receive(k, f) => {
            let Some((m, typed)) = message(&s, c, k, f, stage) else { return Ok(()) };
            if f == Flaw::Twice && k == User && stage != Stage::Holding {
                // the first time; the messages before it come first, or not at all
                for n in 0..c.x % 4 {
                    if c.x % 8 >= 4 {
                        let _ = s.layer.read(&s.peer.user(n, None));
                    }
                }
                if s.layer.read(&m).is_err() {
                    obs.label("the first was refused");
                    return Ok(());
                }
            }
            receive(&mut s, &m, typed).map(|_| ())
        }
        What::Call(w) => call(&mut s, c, w),
    };
    let want = names(c.what, stage);
    match r {
        // whether it is refused at all is the other properties'
        Ok(()) => {
            obs.label(match c.what {
                What::Receive(_, f) => not_refused(f),
                What::Call(_) => "a call was not refused",
            });
            Ok(())
        }
        Err(E::Panic(_)) => {
            obs.label("panic");
            Ok(())
        }
        Err(E::Err(e)) => {
            obs.nontrivial();
            if fits(&e, want) {
                return Ok(());
            }
            let e: String = e.chars().take(120).collect();
            Err(format!("{:?} at a layer in stage {:?}{}: refused as {} instead of {}", c.what, stage, if expect { " that expects a key" } else { "" }, e, want.join(" or ")))
        }
    }
}

fn not_refused(f: Flaw) -> &'static str {
    match f {
        Flaw::Undecodable => "not refused: decodable after all",
        Flaw::Inflate => "not refused: a deflate stream after all",
        Flaw::LowOrder => "not refused: not of low order",
        Flaw::ShortFormat => "not refused: no data",
        _ => "not refused",
    }
}

fn whats() -> Vec<What> {
    let mut v = vec![];
    for k in KINDS3 {
        for f in FLAWS {
            v.push(What::Receive(k, f));
        }
    }
    v.extend(CALLS.map(What::Call));
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut grid = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for what in whats() {
            for stage in 0..stages(mode, what).len() {
                for x in 0..ctx.pick(24u64, 600) {
                    let mut h = x;
                    let len = [0, 1, 5, 40, 300][x as usize % 5];
                    grid.push(Case {
                        mode,
                        what,
                        stage: stage as u8,
                        cfg: Cfg { level: (x % 10) as u32, min_size: [0, 8192, 50][x as usize % 3], format: (x % 5) as u8 },
                        seed: x % 5,
                        data: Payload::new(len, (x % 4) as u8, x),
                        x: if x < 10 { x } else { splitmix(&mut h) },
                    });
                }
            }
        }
    }
    ctx.each("table", grid, run_case);
    let exists: Vec<(Mode, What)> = [Mode::Minimal, Mode::Complete]
        .into_iter()
        .flat_map(|m| whats().into_iter().map(move |w| (m, w)))
        .filter(|(m, w)| !stages(*m, *w).is_empty())
        .collect();
    ctx.prop(
        "generated",
        ctx.pick(60_000, 2_000_000),
        || {
            (
                proptest::sample::select(exists.clone()),
                any::<u8>(),
                any_cfg(),
                any::<u64>(),
                any_payload(20_000),
                prop_oneof![1 => 0u64..200, 2 => any::<u64>()],
            )
                .prop_map(|((mode, what), stage, cfg, seed, data, x)| Case { mode, what, stage, cfg, seed, data, x })
        },
        run_case,
    );
    // too many unordered messages
    let mut many = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for gap in ctx.pick(vec![1u64, 2], vec![1, 2, 3, 1 << 40]) {
            many.push((mode, gap));
        }
    }
    ctx.each("too-many-unordered", many, |(mode, gap), obs| {
        let Ok(mut s) = solo(*mode, &Cfg::default(), false, Stage::Done, *gap) else { return Ok(()) };
        for i in 0..=10_000u64 {
            match s.layer.read(&s.peer.user(1 + i * gap.min(&1_000_000), None)) {
                Ok(_) => {}
                Err(e) => {
                    obs.nontrivial();
                    return if e == E::Err("TooManyUnorderedMsgs".into()) {
                        Ok(())
                    } else {
                        Err(format!("message {} past a missing one is refused as {} instead of TooManyUnorderedMsgs", i, e))
                    };
                }
            }
        }
        Ok(())
    });
    // duplicates of messages far behind, and far ahead
    let mut far = vec![];
    for mode in [Mode::Minimal, Mode::Complete] {
        for clone in [false, true] {
            for ahead in [false, true] {
                far.push((mode, clone, ahead));
            }
        }
    }
    ctx.each("old-duplicates", far, |(mode, clone, ahead), obs| {
        let stage = if *clone { Stage::Cloned } else { Stage::Done };
        let Ok(mut s) = solo(*mode, &Cfg::default(), false, stage, 9) else { return Ok(()) };
        let n = if *ahead { 9_999u64 } else { ctx.pick(70_000, 1_100_000) };
        for i in 0..n {
            if s.layer.read(&s.peer.user(i + *ahead as u64, None)).is_err() {
                obs.label("refused");
                return Ok(());
            }
        }
        for back in [1u64, 2, 63, 64, 65, 255, 256, 1000, 1023, 1024, 2048, 4096, 9_998, 9_999, 10_000, 10_001, 16_384, 65_535, 65_536, 69_999] {
            if back > n {
                continue;
            }
            let number = n - back + *ahead as u64;
            match s.layer.read(&s.peer.user(number, None)) {
                Err(E::Err(e)) if e == "RecvInvalidMsg(InvalidNonce)" => obs.nontrivial(),
                Err(E::Err(e)) => {
                    return Err(format!("the duplicate of message {} of {} is refused as {} instead of RecvInvalidMsg(InvalidNonce)", number, n, e))
                }
                _ => obs.label("not refused"),
            }
            obs.extra += 1;
        }
        Ok(())
    });
    ctx.finish(RULE, "exploration", &[])
}
