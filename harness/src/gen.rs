//! Generators shared by the properties.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A payload described by its size, kind of content and seed.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Payload {
    pub len: usize,
    pub kind: u8,
    pub seed: u64,
}

pub const KINDS: u8 = 12;

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Payload {
    pub fn new(len: usize, kind: u8, seed: u64) -> Payload {
        Payload { len, kind, seed }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut s = self.seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ self.len as u64;
        let n = self.len;
        let mut v: Vec<u8> = Vec::with_capacity(n + 8);
        match self.kind % KINDS {
            0 => v.resize(n, 0),
            1 => {
                while v.len() < n {
                    v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                }
            }
            2 => v.resize(n, self.seed as u8),
            3 => {
                // text-like, compressible
                const W: &[&[u8]] = &[b"the ", b"peer ", b"sends ", b"a ", b"message ", b"\n", b"key "];
                while v.len() < n {
                    v.extend_from_slice(W[(splitmix(&mut s) % W.len() as u64) as usize]);
                }
            }
            4 => {
                // begins like a message of the protocol
                v.extend_from_slice(&[0xE2, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1]);
                while v.len() < n {
                    v.push(splitmix(&mut s) as u8);
                }
            }
            5 => v.resize(n, 0xFF),
            11 => {
                // bytes that stand in pkstl's source, at the beginning, the end or all over
                let strings = &crate::dict::get().strings;
                let k = strings.len() as u64;
                let (d, place) = (&strings[(self.seed % k) as usize], self.seed / k % 4);
                let at = match place {
                    0 => 0,
                    1 => n.saturating_sub(d.len()),
                    2 => splitmix(&mut s) as usize % (n + 1),
                    _ => 0,
                };
                while v.len() < n {
                    if v.len() == at || place == 3 {
                        v.extend_from_slice(d);
                        v.truncate(n);
                    } else {
                        v.push(splitmix(&mut s) as u8);
                    }
                }
            }
            6 => {
                // random, then a run of zeros
                let k = n / 2;
                while v.len() < k {
                    v.push(splitmix(&mut s) as u8);
                }
                v.resize(n, 0);
            }
            7 => {
                // zeros, then random
                v.resize(n / 2, 0);
                while v.len() < n {
                    v.push(splitmix(&mut s) as u8);
                }
            }
            8 => {
                // short period
                let p = 1 + (self.seed % 37) as usize;
                while v.len() < n {
                    v.push((v.len() % p) as u8);
                }
            }
            9 => {
                // few symbols
                while v.len() < n {
                    v.push((splitmix(&mut s) & 3) as u8);
                }
            }
            _ => {
                // siblings: for one length the same bytes at both ends and the same bytes in all,
                // in another order
                while v.len() < n {
                    v.push(b'a' + (v.len() * v.len() / 3 % 23) as u8);
                }
                if n >= 24 {
                    let mut t = self.seed;
                    let mid = (n - 16) as u64;
                    for _ in 0..3 {
                        let i = 8 + (splitmix(&mut t) % mid) as usize;
                        let j = 8 + (splitmix(&mut t) % mid) as usize;
                        v.swap(i, j);
                    }
                }
            }
        }
        v.truncate(n);
        v
    }
}

/// Small payloads, with the boundaries of the headers and of the BufWriter among them.
pub fn small_payload() -> impl Strategy<Value = Payload> {
    (
        prop_oneof![8 => 0usize..80, 4 => 0usize..600, 2 => Just(0usize), 2 => Just(1usize), 1 => near_source(20_000)],
        0u8..KINDS,
        0u64..1000,
    )
        .prop_map(|(len, kind, seed)| Payload { len, kind, seed })
}

/// Numbers that stand in pkstl's source, and those next to them.
pub fn near_source(max: usize) -> impl Strategy<Value = usize> {
    let v: Vec<usize> = crate::dict::around(max as u64).into_iter().map(|n| n as usize).collect();
    proptest::sample::select(v)
}

/// Payloads around the sizes at which the code changes path.
pub fn any_payload(max: usize) -> impl Strategy<Value = Payload> {
    let edges: Vec<usize> = [
        1usize, 16, 26, 32, 48, 64, 100, 128, 512, 1024, 2048, 4096, 5000, 8150, 8166, 8192, 8193, 8218, 8250,
        10_000, 16_384, 32_768, 65_535, 65_536, 100_000, 131_072, 262_144, 1_048_576,
    ]
    .into_iter()
    .filter(|e| *e <= max)
    .collect();
    (
        prop_oneof![
            3 => 0usize..80.min(max + 1),
            3 => (proptest::sample::select(edges), 0usize..9).prop_map(move |(e, d)| (e + d).saturating_sub(4).min(max)),
            2 => 0usize..(max.min(20_000) + 1),
            1 => near_source(max),
            1 => 0usize..(max + 1),
        ],
        0u8..KINDS,
        0u64..1_000_000,
    )
        .prop_map(|(len, kind, seed)| Payload { len, kind, seed })
}

pub fn opt_payload() -> impl Strategy<Value = Option<Payload>> {
    prop_oneof![1 => Just(None), 3 => small_payload().prop_map(Some)]
}

/// A configuration in serialisable form.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Cfg {
    pub level: u32,
    pub min_size: usize,
    /// 0 raw, 1 text, 2 json, 3 cbor, 4 bincode
    pub format: u8,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { level: 1, min_size: 8192, format: 0 }
    }
}

pub fn format_of(n: u8) -> pkstl::MessageFormat {
    use pkstl::MessageFormat::*;
    match n {
        0 => RawBinary,
        1 => Utf8PlainText,
        2 => Utf8Json,
        3 => Cbor,
        _ => Bincode,
    }
}

impl Cfg {
    pub fn get(&self) -> pkstl::SecureLayerConfig {
        pkstl::SecureLayerConfig {
            compression: flate2::Compression::new(self.level),
            compression_min_size: self.min_size,
            message_format: format_of(self.format),
            ..pkstl::SecureLayerConfig::default()
        }
    }
}

pub fn any_cfg() -> impl Strategy<Value = Cfg> {
    (
        0u32..10,
        prop_oneof![
            Just(0usize),
            Just(1usize),
            0usize..300,
            Just(8192usize),
            prop_oneof![Just(usize::MAX), (14u32..64).prop_map(|k| 1usize << k)],
            0usize..20_000,
            near_source(usize::MAX)
        ],
        0u8..5,
    )
        .prop_map(|(level, min_size, format)| Cfg { level, min_size, format })
}

pub fn any_mode() -> impl Strategy<Value = crate::sut::Mode> {
    prop_oneof![Just(crate::sut::Mode::Minimal), Just(crate::sut::Mode::Complete)]
}
