//! Numbers and byte strings that stand in the source of pkstl, as inputs: what the code compares
//! its input with is often written there. They only steer what is generated; what is expected of
//! the code does not depend on them.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Dict {
    pub numbers: Vec<u64>,
    pub strings: Vec<Vec<u8>>,
}

/// Where the pkstl under test is, as this program was built.
fn source() -> PathBuf {
    let toml = include_str!("../Cargo.toml");
    toml.lines()
        .find(|l| l.starts_with("pkstl ") || l.starts_with("pkstl="))
        .and_then(|l| l.split("path").nth(1))
        .and_then(|l| l.split('"').nth(1))
        .map_or_else(|| "/repo".into(), PathBuf::from)
        .join("src")
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Token {
    Num(u128),
    Str(Vec<u8>),
    Other(u8),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            i += 1;
            match s[i] {
                b'n' => v.push(b'\n'),
                b'r' => v.push(b'\r'),
                b't' => v.push(b'\t'),
                b'0' => v.push(0),
                b'x' if i + 2 < s.len() => {
                    if let Some(x) = std::str::from_utf8(&s[i + 1..i + 3]).ok().and_then(|t| u8::from_str_radix(t, 16).ok()) {
                        v.push(x);
                    }
                    i += 2;
                }
                c => v.push(c),
            }
        } else {
            v.push(s[i]);
        }
        i += 1;
    }
    v
}

fn tokens(s: &[u8]) -> Vec<Token> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if s[i..].starts_with(b"//") {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with(b"/*") {
            i += 2;
            while i < s.len() && !s[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let start = i + 1;
            i += 1;
            while i < s.len() && s[i] != b'"' {
                i += if s[i] == b'\\' { 2 } else { 1 };
            }
            out.push(Token::Str(unescape(&s[start.min(s.len())..i.min(s.len())])));
            i += 1;
        } else if c == b'\'' {
            // a character, or a lifetime
            let end = if s.get(i + 1) == Some(&b'\\') { s[i + 2..].iter().position(|x| *x == b'\'').map(|k| i + 2 + k) } else { Some(i + 2) };
            match end {
                Some(e) if s.get(e) == Some(&b'\'') && e < i + 12 => {
                    for b in unescape(&s[i + 1..e]) {
                        out.push(Token::Num(b as u128));
                    }
                    i = e + 1;
                }
                _ => i += 1,
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let start = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
            // the b of b"..." stands for itself
            if !(i - start == 1 && c == b'b') {
                out.push(Token::Other(b'a'));
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
            let t: String = s[start..i].iter().map(|b| *b as char).filter(|c| *c != '_').collect();
            let (radix, digits) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let mut digits = digits;
            for suffix in ["usize", "isize", "u128", "u16", "u32", "u64", "i16", "i32", "i64", "u8", "i8"] {
                digits = digits.strip_suffix(suffix).unwrap_or(digits);
            }
            if let Ok(n) = u128::from_str_radix(digits, radix) {
                out.push(Token::Num(n));
            }
        } else {
            if !c.is_ascii_whitespace() {
                out.push(Token::Other(c));
            }
            i += 1;
        }
    }
    out
}

fn read(text: &[u8], numbers: &mut BTreeSet<u64>, strings: &mut BTreeSet<Vec<u8>>) {
    let t = tokens(text);
    let mut add = |n: Option<u128>| {
        if let Some(n) = n.and_then(|n| u64::try_from(n).ok()) {
            numbers.insert(n);
        }
    };
    for (i, x) in t.iter().enumerate() {
        match x {
            Token::Num(n) => {
                add(Some(*n));
                // one operation between two numbers
                let op = |k: usize| match t.get(i + k) {
                    Some(Token::Other(c)) => *c,
                    _ => 0,
                };
                let num = |k: usize| match t.get(i + k) {
                    Some(Token::Num(n)) => Some(*n),
                    _ => None,
                };
                match (op(1), op(2)) {
                    (b'<', b'<') => add(num(3).filter(|k| *k < 64).map(|k| n << k)),
                    (b'*', _) => {
                        add(num(2).and_then(|m| n.checked_mul(m)));
                        if op(3) == b'*' {
                            add(num(2).and_then(|m| n.checked_mul(m)).and_then(|x| num(4).and_then(|m| x.checked_mul(m))));
                        }
                    }
                    (b'+', _) => add(num(2).and_then(|m| n.checked_add(m))),
                    (b'-', _) => add(num(2).and_then(|m| n.checked_sub(m))),
                    _ => {}
                }
                if *n > 255 && *n <= u32::MAX as u128 {
                    strings.insert((*n as u32).to_be_bytes().to_vec());
                    strings.insert((*n as u32).to_le_bytes().to_vec());
                }
                if *n > 255 && *n <= u16::MAX as u128 {
                    strings.insert((*n as u16).to_be_bytes().to_vec());
                    strings.insert((*n as u16).to_le_bytes().to_vec());
                }
            }
            Token::Str(s) => {
                if !s.is_empty() && s.len() <= 64 {
                    strings.insert(s.clone());
                }
            }
            Token::Other(b'[') => {
                // [1, 2, 3], or [0; 4]
                let mut v = vec![];
                let mut k = i + 1;
                while let Some(Token::Num(n)) = t.get(k) {
                    if *n > 255 {
                        break;
                    }
                    v.push(*n as u8);
                    if t.get(k + 1) != Some(&Token::Other(b',')) {
                        break;
                    }
                    k += 2;
                }
                if let (Some(Token::Num(n)), Some(Token::Other(b';')), Some(Token::Num(m))) = (t.get(i + 1), t.get(i + 2), t.get(i + 3)) {
                    if *n < 256 && *m <= 64 {
                        v = vec![*n as u8; *m as usize];
                    }
                }
                if !v.is_empty() && v.len() <= 64 {
                    strings.insert(v);
                }
            }
            _ => {}
        }
    }
}

/// The source without its tests.
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut fs = vec![];
        files(&source(), &mut fs);
        let (mut numbers, mut strings) = (BTreeSet::new(), BTreeSet::new());
        for f in fs {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            let end = text.find("#[cfg(test)]\nmod ").unwrap_or(text.len());
            read(text[..end].as_bytes(), &mut numbers, &mut strings);
        }
        // never empty
        numbers.extend([0, 1]);
        strings.insert(vec![0]);
        let mut d = Dict { numbers: numbers.into_iter().collect(), strings: strings.into_iter().collect() };
        d.numbers.truncate(3000);
        d.strings.truncate(3000);
        d
    })
}

/// Numbers up to this, and those next to them.
pub fn around(max: u64) -> Vec<u64> {
    let s: BTreeSet<u64> = get()
        .numbers
        .iter()
        .flat_map(|n| [n.wrapping_sub(1), *n, n.wrapping_add(1)])
        .filter(|n| *n <= max)
        .collect();
    s.into_iter().collect()
}

/// Sizes of data for which the data, or what is made of it, has a size that stands in the source.
pub fn data_sizes(max: u64) -> Vec<usize> {
    let mut s: BTreeSet<u64> = around(max).into_iter().collect();
    for n in get().numbers.iter().filter(|n| **n > 200 && **n <= max + 200) {
        // headers, ends and tags of each type, and the numbers some checks put before the data
        for k in [3, 7, 26, 29, 50, 58, 61, 74, 77, 86, 114, 150] {
            s.insert(n.saturating_sub(k).min(max));
        }
    }
    s.into_iter().map(|n| n as usize).collect()
}

/// What a field of four bytes could be compared with.
pub fn quads() -> Vec<[u8; 4]> {
    let mut s = BTreeSet::new();
    let mut put = |v: &[u8]| {
        if let Ok(q) = <[u8; 4]>::try_from(v) {
            s.insert(q);
        }
    };
    for v in &get().strings {
        let n = v.len();
        if n < 4 {
            put(&[&[0; 4][n..], v].concat());
            put(&[v, &[0; 4][n..]].concat());
        }
        for w in v.windows(4) {
            put(w);
        }
    }
    for n in around(u32::MAX as u64) {
        put(&(n as u32).to_be_bytes());
        put(&(n as u32).to_le_bytes());
    }
    s.into_iter().take(4000).collect()
}

pub fn show() {
    let d = get();
    println!("{} numbers: {:?}", d.numbers.len(), d.numbers);
    println!("{} strings: {:?}", d.strings.len(), d.strings.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>());
}

pub fn self_test() -> bool {
    let (mut n, mut s) = (BTreeSet::new(), BTreeSet::new());
    read(
        b"// 99 \"no\"\nconst A: [u8; 2] = [0xE2, 194]; x<'a>(b\"PI\\x00NG\", 'e', 7_777usize, 3 << 10, 64 * 1024); /* 98 */ \"\" [7; 3]",
        &mut n,
        &mut s,
    );
    [7777, 3072, 65536, 99 - 1, 99].iter().map(|k| n.contains(k)).collect::<Vec<_>>() == [true, true, true, false, false]
        && s.contains(&b"PI\0NG"[..])
        && s.contains(&[0xE2, 194][..])
        && s.contains(&[7, 7, 7][..])
}
