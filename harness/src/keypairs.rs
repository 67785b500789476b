//! Pairs of private keys whose public keys share exactly so many leading or trailing bytes,
//! found with `pkstl-verif find-keys 26`. The order of the two public keys is then decided late
//! (or by few bytes), which random keys never show. Then pairs that make rare sessions: with a keystream,
//! shared secret, key or nonce that begins or ends with zeros.

use crate::findkeys::sk;
use crate::findstarts::{fixed, step};

/// (what, number of bytes, i, j): private keys sk(i) and sk(j).
pub const PAIRS: &[(&str, u8, u32, u32)] = &[
    ("prefix", 1, 7440215, 6059007),
    ("prefix", 1, 30893350, 4953010),
    ("prefix", 1, 27369399, 9942205),
    ("prefix", 1, 32403631, 28980326),
    ("prefix", 2, 20386300, 54716296),
    ("prefix", 2, 12649011, 13588622),
    ("prefix", 2, 10330440, 7212283),
    ("prefix", 2, 7212283, 56412345),
    ("prefix", 3, 61282451, 29702331),
    ("prefix", 3, 29702331, 20386300),
    ("prefix", 3, 54716296, 17675781),
    ("prefix", 3, 17675781, 12649011),
    ("prefix", 4, 17872374, 4106764),
    ("prefix", 4, 13034312, 56968183),
    ("prefix", 4, 26253810, 29950958),
    ("prefix", 4, 29950958, 16679879),
    ("prefix", 5, 50158617, 32831733),
    ("prefix", 5, 1576404, 19064493),
    ("prefix", 5, 6463088, 19525997),
    ("prefix", 5, 53584459, 22928195),
    ("prefix", 6, 63236810, 38984516),
    ("prefix", 6, 51328886, 64260439),
    ("prefix", 6, 56326926, 56159405),
    ("prefix", 6, 31156636, 56256526),
    ("suffix", 1, 50467565, 46365117),
    ("suffix", 1, 21429995, 43072481),
    ("suffix", 1, 48875852, 64599221),
    ("suffix", 1, 4245113, 38792075),
    ("suffix", 2, 49463102, 60164388),
    ("suffix", 2, 10034821, 13934495),
    ("suffix", 2, 13748650, 1614473),
    ("suffix", 2, 34538778, 30472146),
    ("suffix", 3, 40392367, 63602452),
    ("suffix", 3, 63602452, 8554192),
    ("suffix", 3, 8554192, 4714131),
    ("suffix", 3, 4714131, 40943651),
    ("suffix", 4, 21822113, 46883686),
    ("suffix", 4, 49541025, 64024943),
    ("suffix", 4, 36341598, 59836729),
    ("suffix", 4, 8260946, 53790906),
    ("suffix", 5, 29427383, 51882945),
    ("suffix", 5, 37172050, 35363773),
    ("suffix", 5, 53185487, 42371467),
    ("suffix", 5, 44597938, 37582759),
    ("suffix", 6, 59856384, 38378801),
    ("suffix", 6, 52029230, 5625571),
    ("suffix", 6, 2669561, 28646268),
    ("suffix", 6, 14859655, 18010840),
];

/// (what, number of zero bytes, thread, i): sessions of the private keys fixed() and step(thread, i) whose
/// keystream, shared secret, key or nonce begins or ends with zeros, found with `pkstl-verif find-starts 34 3`
/// and `find-starts 23 0`.
pub const SHAPED: &[(&str, u8, u32, u64)] = &[
    ("start", 2, 0, 12283),
    ("start", 2, 1, 79529),
    ("start", 2, 0, 76507),
    ("start", 2, 1, 137664),
    ("start", 4, 4, 621244113),
    ("start", 3, 6, 875796),
    ("start", 3, 3, 2002427),
    ("start", 3, 6, 5045743),
    ("nonce-back", 2, 3, 2068870),
    ("nonce-back", 2, 3, 2022177),
    ("nonce-back", 2, 3, 1977351),
    ("secret-back", 3, 1, 1334890),
    ("secret-back", 2, 3, 2035554),
    ("secret-back", 2, 3, 2025090),
    ("key-front", 3, 0, 1964002),
    ("key-front", 2, 3, 2046011),
    ("key-front", 2, 3, 2044087),
    ("secret-front", 2, 3, 2058766),
    ("secret-front", 2, 3, 1975654),
    ("secret-front", 2, 3, 1758195),
    ("key-back", 2, 3, 2031541),
    ("key-back", 2, 3, 1992344),
    ("key-back", 2, 3, 1981461),
    ("nonce-front", 3, 2, 1770629),
    ("nonce-front", 2, 3, 2059084),
    ("nonce-front", 2, 3, 2033996),
];

/// The sessions of a zero keystream start, or of all shapes, in both orders.
pub fn shaped(all: bool) -> Vec<([u8; 32], [u8; 32])> {
    let mut v = vec![];
    for (what, _, t, i) in SHAPED {
        if all || *what == "start" {
            v.push((fixed(), step(*t, *i)));
            v.push((step(*t, *i), fixed()));
        }
    }
    v
}

/// In one case of 40: the private keys of a session that is rare, most often of the one whose user messages
/// all begin with the magic value.
pub fn now_and_then(seed: u64) -> Option<([u8; 32], [u8; 32])> {
    if seed % 40 != 23 {
        return None;
    }
    let v = shaped(true);
    let n = (seed / 40) as usize;
    Some(v[if n % 4 == 0 { n / 4 % v.len() } else { n % 2 + FOUR }])
}

/// Where the session with four zeros is in `shaped`.
const FOUR: usize = 8;

/// All pairs in both orders.
pub fn all() -> Vec<([u8; 32], [u8; 32])> {
    let mut v = vec![];
    for (_, _, i, j) in PAIRS {
        v.push((sk(*i), sk(*j)));
        v.push((sk(*j), sk(*i)));
    }
    v.extend(shaped(true));
    v
}
