//! C17: identity and random seeds are what they claim to be.

use crate::driver::{Ctx, Obs};
use crate::entropy;
use crate::gen::*;
use crate::peer::Peer;
use crate::refcrypto::{sha256, verify, x25519_base, Identity};
use crate::sut::{self, Mode};
use crate::wire::{self, Decoded};
use pkstl::{SecureLayer, Seed32};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::BufWriter;
use std::sync::Mutex;

const RULE: &str = "complete-mode layers with generated seeds must name the Ed25519 key of the seed (computed independently) in \
 their CONNECT and sign CONNECT and ACK with it; layers without a seed must have the key of 32 consecutive bytes of the \
 entropy they drew, other ones than those of the ephemeral key, and with real randomness all different keys; \
 Seed32::random must return the bytes drawn, Seed32::new the bytes given. Non-trivial: both messages were signed, or the \
 bytes drawn were not constant.";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// None: random identity.
    seed: Option<[u8; 32]>,
    cfg: Cfg,
    expect: bool,
    ack_first: bool,
    data: [Option<Payload>; 2],
    entropy: u64,
}

struct Seen {
    pk: Vec<u8>,
    epk: Vec<u8>,
}

/// Makes a layer, lets it write CONNECT and ACK, verifies both.
fn identity(c: &Case, given: Option<Seed32>) -> Result<Option<Seen>, String> {
    let mut peer = Peer::new(c.entropy ^ 0x17, true);
    let expected = c.expect.then(|| peer.id.pk().to_vec());
    let Ok(mut l) = sut::catch(|| SecureLayer::create(c.cfg.get(), given, expected)) else { return Ok(None) };
    let d: Vec<_> = c.data.iter().map(|p| p.as_ref().map(|p| p.bytes())).collect();
    let ok = |r: sut::R<()>, w: BufWriter<Vec<u8>>| r.ok().and_then(|_| w.into_inner().ok());
    let connect = |l: &mut SecureLayer| {
        let mut w = BufWriter::new(Vec::new());
        let r = sut::catch(|| l.write_connect_msg_bin(d[0].as_deref(), &mut w));
        ok(r, w)
    };
    let mut m = None;
    if !c.ack_first {
        m = connect(&mut l);
    }
    if sut::catch(|| l.read_bin(&peer.connect(None))).is_err() {
        return Ok(None);
    }
    let ack = |l: &mut SecureLayer| {
        let mut w = BufWriter::new(Vec::new());
        let r = sut::catch(|| l.write_ack_msg_bin(d[1].as_deref(), &mut w));
        ok(r, w)
    };
    let mut a = None;
    if c.ack_first {
        a = ack(&mut l);
        m = connect(&mut l);
    } else {
        a = a.or_else(|| ack(&mut l));
    }
    let (Some(m), Some(a)) = (m, a) else { return Ok(None) };
    if m.len() < 86 + 64 || a.len() < 50 + 64 {
        return Ok(None);
    }
    let pk = m[54..86].to_vec();
    let epk = m[18..50].to_vec();
    if !verify(&pk, &m[..m.len() - 64], &m[m.len() - 64..]) {
        return Err("the CONNECT is not signed with the key it announces".into());
    }
    if !verify(&pk, &a[..a.len() - 64], &a[a.len() - 64..]) {
        return Err("the ACK is not signed with the announced key".into());
    }
    match (wire::decode(&m, None, None), wire::decode(&a, None, Some(&pk))) {
        (Ok(Decoded::Connect { .. }), Ok(Decoded::Ack { .. })) => {}
        _ => return Ok(None),
    }
    peer.see_epk(epk.clone().try_into().unwrap());
    // and its own receiver takes the peer's answer
    Ok(Some(Seen { pk, epk }))
}

fn run_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.entropy);
    let given = c.seed.map(Seed32::new);
    if let (Some(s), Some(g)) = (&c.seed, &given) {
        if g.as_ref() != s {
            return Err("Seed32::new does not hold the bytes given".into());
        }
    }
    let Some(seen) = identity(c, given)? else {
        obs.label("refused");
        return Ok(());
    };
    obs.nontrivial();
    match &c.seed {
        Some(s) => {
            if seen.pk != Identity::new(*s).pk() {
                return Err("the announced key is not the one of the seed".into());
            }
        }
        None => {
            let n = entropy::served() as usize;
            if n == 0 {
                obs.label("no entropy drawn through getrandom");
                return Ok(());
            }
            let drawn = entropy::bytes_of(c.entropy, n);
            let from = drawn.windows(32).find(|w| Identity::new((*w).try_into().unwrap()).pk()[..] == seen.pk[..]);
            let Some(from) = from else {
                return Err("the random identity is not made of 32 bytes the system random source gave".into());
            };
            if x25519_base(from.try_into().unwrap())[..] == seen.epk[..] {
                return Err("the identity and the ephemeral key are made of the same random bytes".into());
            }
            obs.label("random identity");
        }
    }
    Ok(())
}

/// Bits of the entropy that the random identity depends on.
fn bits(seed: &u64, obs: &mut Obs) -> Result<(), String> {
    let c = Case { seed: None, cfg: Cfg::default(), expect: false, ack_first: false, data: [None, None], entropy: *seed };
    let base: [u8; 64] = entropy::bytes_of(*seed, 64).try_into().unwrap();
    let get = |b: &[u8; 64]| {
        entropy::set(*seed);
        entropy::push_fixed(b);
        identity(&c, None)
    };
    let Some(first) = get(&base)? else { return Ok(()) };
    if entropy::served() == 0 {
        obs.label("no entropy drawn through getrandom");
        return Ok(());
    }
    let mut pks = HashSet::from([first.pk]);
    for i in 0..512 {
        let mut b = base;
        b[i / 8] ^= 1 << (i % 8);
        if let Some(s) = get(&b)? {
            pks.insert(s.pk);
        }
        obs.extra += 1;
    }
    if pks.len() < 257 {
        return Err(format!("only {} bits of entropy influence the random identity", pks.len() - 1));
    }
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeds {
    seed: u64,
    fixed: Option<[u8; 32]>,
    n: u8,
}

fn seeds(c: &Seeds, obs: &mut Obs) -> Result<(), String> {
    entropy::set(c.seed);
    let mut want = entropy::bytes_of(c.seed, 32 * c.n as usize);
    if let Some(f) = &c.fixed {
        entropy::push_fixed(f);
        want = [&f[..], &want].concat();
    }
    let all: Vec<Seed32> = (0..c.n).map(|_| Seed32::random()).collect();
    let n = entropy::served() as usize;
    if n == 0 {
        obs.label("no entropy drawn through getrandom");
        return Ok(());
    }
    let have: Vec<u8> = all.iter().flat_map(|s| s.as_ref().to_vec()).collect();
    if have != want[..have.len()] {
        return Err(format!("{} calls of Seed32::random did not return the bytes the system gave", c.n));
    }
    // a seed keeps its bytes
    for (i, s) in all.iter().enumerate() {
        let bytes: [u8; 32] = s.as_ref().try_into().map_err(|_| "a seed is not of 32 bytes".to_string())?;
        for bit in 0..256 {
            let mut other = bytes;
            other[bit / 8] ^= 1 << (bit % 8);
            if bit % 3 == 0 {
                other[(bit / 8 + 1 + i) % 32] ^= 1 << (bit % 8);
            }
            if Seed32::new(other) == *s {
                return Err("seeds that differ are equal".into());
            }
        }
        let mut copy = s.clone();
        if copy.as_ref() != bytes || copy != *s || Seed32::new(bytes) != *s {
            return Err("a copy of a seed holds other bytes".into());
        }
        copy.as_mut()[i % 32] ^= 1 << (i % 8);
        if copy == *s || s.as_ref() != bytes {
            return Err("seeds that differ are equal, or share their bytes".into());
        }
        let mut flipped = bytes;
        flipped[i % 32] ^= 1 << (i % 8);
        if copy.as_ref() != flipped {
            return Err("writing to a seed wrote something else".into());
        }
    }
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    n: u32,
    threads: u32,
    layers: bool,
}

fn real(c: &Real, obs: &mut Obs) -> Result<(), String> {
    entropy::off();
    let seen: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..c.threads {
            sc.spawn(|| {
                for i in 0..c.n / c.threads {
                    let b = if c.layers {
                        let case = Case {
                            seed: None,
                            cfg: Cfg::default(),
                            expect: i % 2 == 0,
                            ack_first: i % 3 == 0,
                            data: [None, None],
                            entropy: i as u64,
                        };
                        match identity(&case, None) {
                            Ok(Some(s)) => s.pk,
                            _ => continue,
                        }
                    } else {
                        Seed32::random().as_ref().to_vec()
                    };
                    seen.lock().unwrap().push(b);
                }
            });
        }
    });
    let seen = seen.into_inner().unwrap();
    let what = if c.layers { "identities" } else { "seeds" };
    obs.extra += seen.len() as u64;
    for at in 0..4 {
        let parts: HashSet<&[u8]> = seen.iter().map(|s| &s[at * 8..at * 8 + 8]).collect();
        if parts.len() != seen.len() {
            return Err(format!("of {} random {} some agree in eight bytes", seen.len(), what));
        }
    }
    if seen.len() >= 1000 {
        for bit in 0..256 {
            let ones = seen.iter().filter(|s| s[bit / 8] >> (bit % 8) & 1 == 1).count();
            // more than fifteen standard deviations
            if (ones as f64 - seen.len() as f64 / 2.0).abs() > 7.5 * (seen.len() as f64).sqrt() {
                return Err(format!("bit {} is set in {} of {} random {}", bit, ones, seen.len(), what));
            }
        }
    }
    obs.nontrivial();
    Ok(())
}

fn seed() -> impl Strategy<Value = [u8; 32]> {
    prop_oneof![
        4 => any::<[u8; 32]>(),
        1 => any::<u8>().prop_map(|b| [b; 32]),
        1 => (0usize..256).prop_map(|i| {
            let mut s = [0; 32];
            s[i / 8] = 1 << (i % 8);
            s
        }),
        1 => any::<u64>().prop_map(|n| sha256(&n.to_be_bytes())),
    ]
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut one_bit = vec![];
    for i in 0..256usize {
        for inv in [0u8, 0xFF] {
            let mut s = [inv; 32];
            s[i / 8] ^= 1 << (i % 8);
            one_bit.push(Case {
                seed: Some(s),
                cfg: Cfg::default(),
                expect: i % 2 == 0,
                ack_first: i % 3 == 0,
                data: [None, Some(Payload::new(i, 1, 1))],
                entropy: i as u64,
            });
        }
    }
    ctx.each("seeds-of-one-bit", one_bit, run_case);
    ctx.each("entropy-bits", (0..ctx.pick(4u64, 100)).map(|k| ctx.seed << 8 | k).collect(), bits);
    let mut r = vec![];
    for layers in [false, true] {
        for threads in [1, 8] {
            // more than a number in the source that could count them
            let counted = crate::dict::around(20_000).into_iter().max().unwrap_or(0) as u32 + 40;
            let n = if layers { ctx.pick(4000, 40_000).max(counted * if threads == 1 { 1 } else { 2 }) } else { ctx.pick(40_000, 1_000_000) };
            r.push(Real { n, threads, layers });
        }
    }
    ctx.each("real-randomness", r, real);
    ctx.prop(
        "identities",
        ctx.pick(15_000, 500_000),
        || {
            (proptest::option::weighted(0.6, seed()), any_cfg(), any::<bool>(), any::<bool>(), opt_payload(), opt_payload(), any::<u64>())
                .prop_map(|(seed, cfg, expect, ack_first, a, b, entropy)| Case { seed, cfg, expect, ack_first, data: [a, b], entropy })
        },
        run_case,
    );
    ctx.prop(
        "random-seeds",
        ctx.pick(15_000, 500_000),
        || {
            (any::<u64>(), proptest::option::of(seed()), 1u8..6).prop_map(|(seed, fixed, n)| Seeds { seed, fixed, n })
        },
        seeds,
    );
    let _ = Mode::Complete;
    ctx.finish(RULE, "exploration", &["ring's Ed25519 (the same version pkstl uses) derives public keys correctly"])
}
