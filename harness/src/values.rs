//! A recursive data type for the typed API, its generator, and encoders of its own.

use crate::gen::format_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i64),
    Nat(u64),
    Small(u8, i16, u32),
    Char(char),
    Half(f64),
    Text(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Map(BTreeMap<String, Val>),
    Rec { name: String, id: u64, more: Vec<(i32, bool)>, inner: Option<Box<Val>> },
    New(Inner),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inner {
    pub a: [u8; 4],
    pub b: Option<String>,
    pub c: (u16, ()),
}

pub fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[ -~]{0,40}",
        2 => "\\PC{0,20}",
        1 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect()),
        1 => (1usize..12_000).prop_map(|n| "pkstl ".repeat(n / 6 + 1)),
        1 => (crate::gen::near_source(20_000), any::<u8>()).prop_map(|(n, k)| String::from_utf8(vec![b' ' + k % 95; n]).unwrap()),
        1 => any::<u32>().prop_map(|k| {
            let s = &crate::dict::get().strings;
            String::from_utf8_lossy(&s[k as usize % s.len()]).into_owned()
        }),
    ]
}

pub fn val() -> impl Strategy<Value = Val> {
    let leaf = prop_oneof![
        1 => Just(Val::Unit),
        1 => any::<bool>().prop_map(Val::Bool),
        2 => any::<i64>().prop_map(Val::Int),
        2 => any::<u64>().prop_map(Val::Nat),
        1 => crate::gen::near_source(usize::MAX).prop_map(|n| Val::Nat(n as u64)),
        1 => crate::gen::near_source(usize::MAX).prop_map(|n| Val::Int(n as i64)),
        1 => (any::<u8>(), any::<i16>(), any::<u32>()).prop_map(|(a, b, c)| Val::Small(a, b, c)),
        1 => any::<char>().prop_map(Val::Char),
        // halves of integers are exact in every text form
        1 => any::<i32>().prop_map(|i| Val::Half(i as f64 / 2.0)),
        3 => text().prop_map(Val::Text),
        2 => proptest::collection::vec(any::<u8>(), 0..60).prop_map(Val::Bytes),
        1 => (any::<[u8; 4]>(), proptest::option::of(text()), any::<u16>())
            .prop_map(|(a, b, c)| Val::New(Inner { a, b, c: (c, ()) })),
    ];
    leaf.prop_recursive(4, 40, 6, |inner| {
        prop_oneof![
            proptest::option::of(inner.clone()).prop_map(|o| Val::Opt(o.map(Box::new))),
            proptest::collection::vec(inner.clone(), 0..6).prop_map(Val::List),
            proptest::collection::btree_map("[a-z]{0,6}", inner.clone(), 0..5).prop_map(Val::Map),
            (
                text(),
                any::<u64>(),
                proptest::collection::vec((any::<i32>(), any::<bool>()), 0..4),
                proptest::option::of(inner)
            )
                .prop_map(|(name, id, more, i)| Val::Rec { name, id, more, inner: i.map(Box::new) }),
        ]
    })
}

/// The header of a format, as documented.
pub fn header(format: u8) -> [u8; 4] {
    [0, 0, 0, format]
}

/// A typed payload as the format prescribes it: header, then the encoding.
pub fn encode<T: Serialize>(v: &T, format: u8) -> Vec<u8> {
    let mut out = header(format).to_vec();
    match format {
        2 => out.extend(serde_json::to_vec(v).expect("json")),
        3 => out.extend(serde_cbor::to_vec(v).expect("cbor")),
        _ => out.extend(bincode::serialize(v).expect("bincode")),
    }
    out
}

/// The value a typed payload contains, read with the library of the format.
pub fn decode<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T> {
    let (h, body) = (b.get(..4)?, &b[4..]);
    match h {
        [0, 0, 0, 2] => serde_json::from_slice(body).ok(),
        [0, 0, 0, 3] => serde_cbor::from_slice(body).ok(),
        [0, 0, 0, 4] => bincode::deserialize(body).ok(),
        _ => None,
    }
}

pub fn format(n: u8) -> pkstl::MessageFormat {
    format_of(n)
}
