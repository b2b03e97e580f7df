//! Hash and version types (S01).
use crate::core::*;
use crate::keccak::keccak256;
use crate::smt::sha;
use crate::{chk, vio};
use jmt::db::Version as Ver;
use jmt::{KeyHash, RootHash, Sha256, ValueHash};
use patriecia::H256;
use std::collections::{BTreeSet, HashSet};

fn rt<T>(c: &mut Case, what: &str, x: &T) -> R
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let j = ok("to json", || serde_json::to_string(x))?;
    let y: T = ok("from json", || serde_json::from_str(&j))?;
    chk!(y == *x, "json", "{what} {x:?} comes back from JSON as {y:?}");
    let j = ok("to json value", || serde_json::to_value(x))?;
    let y: T = ok("from json value", || serde_json::from_value(j))?;
    chk!(y == *x, "json", "{what} {x:?} comes back from a JSON value as {y:?}");
    let b = ok("to bincode", || bincode::serialize(x))?;
    let y: T = ok("from bincode", || bincode::deserialize(&b))?;
    chk!(y == *x, "bincode", "{what} {x:?} comes back from bincode as {y:?}");
    // too short is an error, not a panic
    if !b.is_empty() {
        let cut = c.rng.below(b.len());
        let r = lib("from short bincode", || bincode::deserialize::<T>(&b[..cut]))?;
        chk!(r.is_err(), "short", "{what} decodes from {cut} of {} bytes", b.len());
    }
    c.count("round_trips", 3);
    Ok(())
}

fn value(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => [0; 32],
        1 => [255; 32],
        2 => {
            let mut x = [0u8; 32];
            x[r.below(32)] = 1 << r.below(8);
            x
        }
        _ => r.b32(),
    }
}

pub fn s01(c: &mut Case) -> R {
    c.nontrivial = true;
    // Keccak-256 on lengths around the block boundaries, and on any other
    let len = match c.rng.below(8) {
        0..=3 => c.rng.below(300),
        4 => 136 * c.rng.range(1, 20) + c.rng.below(3) - 1,
        5 => c.rng.below(3),
        6 => c.rng.range(300, 5000),
        _ => c.rng.range(0, 140),
    };
    let data = match c.rng.below(4) {
        0 => vec![0u8; len],
        1 => vec![0xff; len],
        _ => c.rng.bytes(len),
    };
    c.print(len as u64);
    c.print_bytes(&data);
    c.op(|| format!("keccak of {len} bytes {}", hx(&data[..len.min(64)])));
    let want = keccak256(&data);
    let got = lib("keccak", || serde_hash::keccak(&data))?;
    chk!(got.0 == want, "keccak", "keccak of {len} bytes is {}, must be {}", hx(&got.0), hx(&want));
    let got = lib("keccak", || serde_hash::keccak(&data[..]))?;
    chk!(got.0 == want, "keccak", "keccak of a slice of {len} bytes differs from that of the vector");
    if let Ok(s) = String::from_utf8(data.iter().map(|b| b & 0x7f).collect()) {
        let got = lib("keccak", || serde_hash::keccak(s.as_str()))?;
        chk!(got.0 == keccak256(s.as_bytes()), "keccak", "keccak of a string of {len} bytes is wrong");
    }
    c.count("hashes_checked", 3);
    if len % 136 == 0 || len % 136 == 135 {
        c.count("block_boundaries", 1);
    }
    // one flipped bit changes it
    if len > 0 {
        let mut d = data.clone();
        let i = c.rng.below(len);
        d[i] ^= 1 << c.rng.below(8);
        chk!(lib("keccak", || serde_hash::keccak(&d))?.0 != want, "keccak", "two different inputs have one hash");
    }
    // the 32-byte hash type
    let a = value(&mut c.rng);
    let b = if c.rng.chance(1, 3) {
        let mut b = a;
        b[c.rng.below(32)] ^= 1 << c.rng.below(8);
        b
    } else {
        value(&mut c.rng)
    };
    c.print_bytes(&a);
    let (x, y) = (H256(a), H256(b));
    rt(c, "hash", &x)?;
    rt(c, "hash", &vec![x, y])?;
    rt(c, "hash", &(Some(x), 7u8, y))?;
    chk!(H256::from_slice(&a) == x && H256::from(a) == x && H256::from(&a) == x, "from", "a hash from bytes {} differs from them", hx(&a));
    chk!(x.as_bytes() == &a[..] && x.0 == a && *x.as_fixed_bytes() == a && x.to_fixed_bytes() == a && x.as_ref() == &a[..], "bytes", "the bytes of hash {} are not those it was made of", hx(&a));
    let mut z = H256::zero();
    z.assign_from_slice(&a);
    chk!(z == x, "assign", "assigning {} gives {:?}", hx(&a), z);
    chk!(format!("{:x}", x) == hx(&a), "hex", "hash {} prints as {:x}", hx(&a), x);
    chk!(format!("{:#x}", x) == format!("0x{}", hx(&a)), "hex", "hash {} prints as {:#x}", hx(&a), x);
    chk!(format!("{:?}", x) == format!("0x{}", hx(&a)), "hex", "hash {} prints as {:?}", hx(&a), x);
    chk!((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order", "hashes {} and {} compare differently from their bytes", hx(&a), hx(&b));
    chk!(x.is_zero() == (a == [0; 32]), "zero", "is_zero of {} is {}", hx(&a), x.is_zero());
    let n: HashSet<H256> = [x, y, x].into_iter().collect();
    let m: BTreeSet<H256> = [x, y, x].into_iter().collect();
    let want = if a == b { 1 } else { 2 };
    chk!(n.len() == want && m.len() == want, "set", "a set of hashes confuses {} and {}", hx(&a), hx(&b));
    c.count("hash_values", 1);
    // the versioned tree's hash types
    let (k, k2) = (KeyHash(a), KeyHash(b));
    rt(c, "key hash", &k)?;
    rt(c, "value hash", &ValueHash(a))?;
    rt(c, "root hash", &RootHash(a))?;
    let e = ok("borsh", || borsh::to_vec(&k))?;
    let d: KeyHash = ok("borsh", || borsh::BorshDeserialize::try_from_slice(&e))?;
    chk!(d == k && e == a, "borsh", "key hash {} comes back from borsh as {d:?}", hx(&a));
    let e = ok("borsh", || borsh::to_vec(&ValueHash(a)))?;
    let d: ValueHash = ok("borsh", || borsh::BorshDeserialize::try_from_slice(&e))?;
    chk!(d.0 == a, "borsh", "value hash {} comes back from borsh as {d:?}", hx(&a));
    chk!((k == k2) == (a == b) && k.cmp(&k2) == a.cmp(&b) && RootHash(a).cmp(&RootHash(b)) == a.cmp(&b) && ValueHash(a).cmp(&ValueHash(b)) == a.cmp(&b), "order", "tree hashes compare differently from their bytes");
    for s in [format!("{:?}", k), format!("{:?}", RootHash(a)), format!("{:?}", ValueHash(a))] {
        chk!(s.contains(&hx(&a)), "hex", "hash {} prints as {s}", hx(&a));
    }
    let want = sha(&[&data]);
    let got = lib("KeyHash::with", || KeyHash::with::<Sha256>(&data))?;
    chk!(got.0 == want, "key-hash", "the key hash of {} bytes is {}, must be {}", len, hx(&got.0), hx(&want));
    let got = lib("ValueHash::with", || ValueHash::with::<Sha256>(&data))?;
    chk!(got.0 == want, "value-hash", "the value hash of {} bytes is {}, must be {}", len, hx(&got.0), hx(&want));
    let got = lib("KeyHash::sha256", KeyHash::sha256::<(u64, String)>)?;
    chk!(got.0 == sha(&[&[0u8; 16]]), "key-hash", "the hash of a default key is {got:?}");
    // versions
    let v = match c.rng.below(4) {
        0 => c.rng.below(300) as u64,
        1 => u64::MAX - c.rng.below(3) as u64,
        2 => 1 << c.rng.below(64),
        _ => c.rng.u64(),
    };
    let u = if c.rng.chance(1, 2) { v ^ (1 << c.rng.below(64)) } else { c.rng.u64() };
    c.print(v);
    let w = Ver::from(v);
    let bytes: Vec<u8> = w.into();
    let other: Vec<u8> = Ver(u).into();
    chk!(u64::from(w) == v && Ver::from(&v) == w && Ver::from(bytes.clone()) == w, "version", "version {v} comes back from its bytes as {:?}", Ver::from(bytes.clone()));
    chk!(w.cmp(&Ver(u)) == v.cmp(&u) && bytes.cmp(&other) == v.cmp(&u), "version-order", "versions {v} and {u}, or their bytes, are out of order");
    chk!(w.to_string() == v.to_string(), "version-text", "version {v} prints as {w}");
    if c.rng.chance(1, 4) {
        let l = c.rng.below(20);
        let b = c.rng.bytes(l);
        lib("version from any bytes", || Ver::from(b))?;
    }
    c.count("versions_checked", 1);
    if false {
        vio!("", "");
    }
    Ok(())
}
