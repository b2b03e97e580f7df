//! Properties of the versioned (Jellyfish Merkle) tree.
use crate::core::*;
use crate::jcommon::*;
use crate::keccak::Kec;
use crate::smt;
use crate::{chk, vio};
use borsh::BorshDeserialize;
use jmt::mock::MockTreeStore;
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof};
use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::trie::VersionedTrie;
use jmt::{ExclusionProof, JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, Sha256, SimpleHasher, ValueHash};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

macro_rules! on_stores {
    ($c:expr, $f:ident) => {
        match $c.rng.below(6) {
            0 => {
                $c.count("on_mock_store", 1);
                $f::<MockTreeStore, Sha256>($c, MockTreeStore::default())
            }
            1 => {
                $c.count("on_mock_store", 1);
                $f::<MockTreeStore, Kec>($c, MockTreeStore::new(false))
            }
            2 => {
                $c.count("on_keccak_values", 1);
                $f::<Obs, Kec>($c, Obs::default())
            }
            3 => {
                $c.count("on_byte_store", 1);
                $f::<Obs, Sha256>($c, Obs::with_codec(Codec::Borsh))
            }
            _ => $f::<Obs, Sha256>($c, Obs::default()),
        }
    };
}

pub fn is_excl<T, E>(r: &Result<T, E>) -> bool {
    r.is_err()
}

// ---------------------------------------------------------------- J01

pub fn j01(c: &mut Case) -> R {
    on_stores!(c, j01_on)
}

pub fn check_reads<S: TStore, H: SimpleHasher>(c: &mut Case, w: &World<S, H>, vi: usize, k: &K) -> R {
    let s = &w.snaps[vi];
    let ver = w.first + vi as u64;
    let want = s.map.get(k).cloned();
    let key = KeyHash(*k);
    let t = &w.tree;
    let got = ok("get", || t.get(key, ver))?;
    chk!(got == want, "get", "get({}) at version {ver} gives {:?}, must be {:?}", hx(k), got, want);
    let got = ok("contains", || t.contains(key, ver))?;
    chk!(got == want.is_some(), "contains", "contains({}) at version {ver} gives {got}", hx(k));
    let got = ok("get_with_proof", || t.get_with_proof(key, ver))?.0;
    chk!(got == want, "get_with_proof", "get_with_proof({}) at version {ver} gives {:?}, must be {:?}", hx(k), got, want);
    if !s.map.is_empty() {
        let got = match ok("get_with_exclusion_proof", || t.get_with_exclusion_proof(key, ver))? {
            Ok((v, _)) => Some(v),
            Err(_) => None,
        };
        chk!(got == want, "get_with_exclusion_proof", "get_with_exclusion_proof({}) at version {ver} gives {:?}, must be {:?}", hx(k), got, want);
    }
    c.count("lookups_checked", 4);
    if want.is_none() {
        c.count("absent_lookups", 1);
    }
    if vi + 1 < w.snaps.len() {
        c.count("old_version_lookups", 1);
    }
    Ok(())
}

/// A version that was never committed: refused by every read of the tree's nodes, naming the version.
fn check_unwritten<S: TStore, H: SimpleHasher>(c: &mut Case, w: &World<S, H>) -> R {
    let (lo, n) = (w.first, w.snaps.len() as u64);
    let ver = match c.rng.below(6) {
        0 => lo.wrapping_add(n),
        1 => lo.wrapping_sub(1),
        2 => u64::MAX,
        3 => 0,
        4 => lo.wrapping_add(n + c.rng.below(40) as u64),
        _ => c.rng.u64(),
    };
    if ver.wrapping_sub(lo) < n {
        return Ok(());
    }
    let key = KeyHash(probe_key(&mut c.rng, &w.keys));
    let t = &w.tree;
    macro_rules! missing {
        ($what:expr, $e:expr) => {{
            match lib($what, || $e)? {
                Ok(x) => vio!("unwritten-answered", "{} at version {ver}, never committed, gives {x:?}", $what),
                Err(e) => match e.downcast_ref::<jmt::MissingRootError>() {
                    Some(m) => chk!(m.version == ver, "missing-root-version", "{} at version {ver} reports a missing root at {}", $what, m.version),
                    None => vio!("missing-root-kind", "{} at version {ver}, never committed, fails with {e:?}", $what),
                },
            }
        }};
    }
    // get and contains read the value history alone, which answers for any version
    missing!("get_proof", t.get_proof(key, ver).map(|_| ()));
    missing!("get_with_proof", t.get_with_proof(key, ver).map(|x| x.0));
    missing!("get_with_exclusion_proof", t.get_with_exclusion_proof(key, ver).map(|x| x.is_ok()));
    missing!("get_range_proof", t.get_range_proof(key, ver).map(|_| ()));
    let r = lib("get_root_hash", || t.get_root_hash(ver))?;
    chk!(r.is_err(), "unwritten-root", "get_root_hash({ver}) of a version never committed gives {r:?}");
    let r = ok("get_root_hash_option", || t.get_root_hash_option(ver))?;
    chk!(r.is_none(), "unwritten-root", "get_root_hash_option({ver}) of a version never committed gives {r:?}");
    let r = lib("iterator", || JellyfishMerkleIterator::new(w.store.clone(), ver, key).map(|_| ()))?;
    chk!(r.is_err(), "unwritten-iterated", "iterating version {ver}, never committed, works");
    let r = lib("iterator", || JellyfishMerkleIterator::new_by_index(w.store.clone(), ver, 0).map(|_| ()))?;
    chk!(r.is_err(), "unwritten-iterated", "iterating version {ver}, never committed, by index works");
    c.count("unwritten_versions_refused", 1);
    Ok(())
}

fn j01_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    check_unwritten(c, &w)?;
    for _ in 0..w.steps(c) {
        w.step(c)?;
        for _ in 0..6 {
            let vi = w.pick_version(&mut c.rng);
            let k = probe_key(&mut c.rng, &w.keys);
            check_reads(c, &w, vi, &k)?;
        }
    }
    check_unwritten(c, &w)?;
    let probes: Vec<K> = (0..6).map(|_| probe_key(&mut c.rng, &w.keys)).collect();
    let step = 1 + w.keys.len() * w.snaps.len() / 400;
    for vi in 0..w.snaps.len() {
        for (i, k) in w.keys.iter().chain(&probes).enumerate() {
            if (i + vi) % step == 0 {
                check_reads(c, &w, vi, k)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- J02

pub fn j02(c: &mut Case) -> R {
    if c.rng.chance(1, if c.thorough { 3000 } else { 1200 }) {
        return j02_huge(c);
    }
    on_stores!(c, j02_on)
}

/// Tens of thousands of keys, so that node counts outgrow small integers.
fn j02_huge(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    w.first = 0;
    let n = c.rng.range(16_500, 35_000);
    let base = c.rng.b32();
    let d = c.rng.below(3) * 4;
    let keys: Vec<K> = (0..n)
        .map(|i| if d > 0 && i % 64 != 0 { share_bits(&mut c.rng, &base, d) } else { c.rng.b32() })
        .collect();
    c.op(|| format!("{n} random keys, most sharing {d} bits"));
    let mut sets = vec![keys.iter().map(|k| (*k, Some(vec![k[31]]))).collect::<Set>()];
    for _ in 0..2 {
        let s: Set = (0..c.rng.range(1, 200))
            .map(|_| (*c.rng.pick(&keys), if c.rng.chance(1, 2) { None } else { Some(gen_value(&mut c.rng)) }))
            .collect();
        sets.push(s);
    }
    for s in sets {
        let sets = [s];
        let batch = w.batch_ok(&sets) && c.rng.chance(1, 2);
        let (roots, b) = w.compute(c, &sets, batch)?;
        let st = w.store.clone();
        ok("apply", move || st.apply(b))?;
        w.record(&sets, &roots)?;
        let vi = w.snaps.len() - 1;
        let s = &w.snaps[vi];
        if s.got_root != s.want_root {
            return Err(root_mismatch(vi as u64, &s.got_root, &s.want_root));
        }
        let n = ok("get_leaf_count", || w.tree.get_leaf_count(vi as u64))?;
        chk!(n == Some(s.map.len()), "leaf-count", "leaf count at version {vi} is {n:?}, live keys {}", s.map.len());
        for _ in 0..6 {
            let k = if c.rng.chance(1, 2) { *c.rng.pick(&keys) } else { probe_key(&mut c.rng, &keys) };
            check_reads(c, &w, vi, &k)?;
            check_proof(c, &w, vi, &k)?;
            let i = c.rng.below(s.map.len());
            let it = ok("iter-index", || JellyfishMerkleIterator::new_by_index(w.store.clone(), vi as u64, i))?;
            let (got, err) = lib("iter.next", || drain(it.take(2), 2))??;
            chk!(err.is_none(), "iter-err", "iteration fails: {err:?}");
            let want = s.pairs.get(i).map(|p| p.0);
            chk!(got.first().map(|x| x.0) == want, "iter-index", "entry {i} at version {vi} is {:?}, must be {:?}", got.first().map(|x| hx(&x.0)), want.map(|x| hx(&x)));
        }
    }
    c.count("huge_trees", 1);
    c.print(n as u64);
    c.nontrivial = true;
    Ok(())
}

/// A tree restored from a snapshot as the state before version 0.
fn pre_genesis<S: TStore, H: SimpleHasher>(c: &mut Case, w: &mut World<S, H>) -> R {
    let mut m = Map::new();
    for _ in 0..c.rng.range(1, 12) {
        m.insert(*c.rng.pick(&w.keys), gen_value(&mut c.rng));
    }
    let src = Arc::new(MockTreeStore::new(false));
    let t = new_tree::<MockTreeStore, H>(src.clone(), true);
    let (root, b) = ok("put_value_set", || t.put_value_set(m.iter().map(|(k, v)| (KeyHash(*k), Some(v.clone()))).collect::<Vec<_>>(), 0))?;
    ok("apply", || src.write_tree_update_batch(b))?;
    let last = KeyHash(*m.keys().last().unwrap());
    let p = ok("get_range_proof", || t.get_range_proof(last, 0))?;
    let mut r = ok("restore-new", || jmt::restore::JellyfishMerkleRestore::<H>::new_overwrite(w.store.clone(), u64::MAX, root, true))?;
    {
        use jmt::restore::StateSnapshotReceiver;
        ok("add_chunk", || r.add_chunk(m.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect(), p))?;
        ok("finish", || r.finish())?;
    }
    w.first = 0;
    w.cur = m;
    c.op(|| "started from a tree restored before version 0".into());
    c.count("pre_genesis_trees", 1);
    Ok(())
}

fn j02_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    // the mock store refuses a value older than one it has, and u64::MAX counts as newest there
    let pre = c.rng.chance(1, 12) && std::any::TypeId::of::<S>() == std::any::TypeId::of::<Obs>();
    if pre {
        pre_genesis(c, &mut w)?;
    }
    // leaf counts may be switched off at first and on later; then they may stay unknown
    let mixed = c.rng.chance(1, 4);
    // the store may hold nodes of a build that kept no leaf counts
    let mut legacy = c.rng.chance(1, 8);
    let forget = c.rng.below(8);
    let mut forgot = false;
    let n = w.steps(c);
    for i in 0..n {
        if legacy && !forgot && (i > forget || i + 1 == n) {
            let a: &dyn std::any::Any = &*w.store;
            match a.downcast_ref::<Obs>() {
                Some(o) if !w.snaps.is_empty() => {
                    let n = o.forget_counts();
                    c.op(|| format!("leaf counts of {n} stored nodes forgotten"));
                    c.count("nodes_without_counts", n);
                    forgot = true;
                }
                _ => legacy = false,
            }
        }
        if mixed {
            w.migration = c.rng.chance(1, 2);
        }
        w.step(c)?;
    }
    for (vi, s) in w.snaps.iter().enumerate() {
        let ver = w.first + vi as u64;
        if s.got_root != s.want_root {
            return Err(root_mismatch(ver, &s.got_root, &s.want_root));
        }
        let r = ok("get_root_hash", || w.tree.get_root_hash(ver))?.0;
        if r != s.want_root {
            return Err(root_mismatch(ver, &r, &s.want_root));
        }
        let r = ok("get_root_hash_option", || w.tree.get_root_hash_option(ver))?;
        chk!(r.map(|r| r.0) == Some(s.want_root), "root-option", "get_root_hash_option({ver}) gives {r:?}");
        let n = ok("get_leaf_count", || w.tree.get_leaf_count(ver))?;
        match n {
            Some(n) => {
                chk!(n == s.map.len(), "leaf-count", "leaf count at version {ver} is {n}, live keys {}", s.map.len());
                c.count("leaf_counts_checked", 1);
            }
            None => chk!(mixed || forgot, "leaf-count-none", "no leaf count at version {ver}"),
        }
        let plain = new_tree::<S, H>(w.store.clone(), false);
        let n = ok("get_leaf_count", || plain.get_leaf_count(ver))?;
        chk!(n.is_none(), "leaf-count-off", "a tree without leaf counts gives the count {n:?} at version {ver}");
        c.count("roots_checked", 3);
        if s.map.is_empty() {
            c.count("empty_roots", 1);
        }
        if forgot && !pre {
            let keys = w.keys.clone();
            let k = if c.rng.chance(1, 2) { *c.rng.pick(&keys) } else { probe_key(&mut c.rng, &keys) };
            check_reads(c, &w, vi, &k)?;
            check_proof(c, &w, vi, &k)?;
            // by index: the right entry, or an error when counts are unknown
            let i = c.rng.below(w.snaps[vi].map.len() + 1);
            let it = lib("iter-index", || JellyfishMerkleIterator::new_by_index(w.store.clone(), ver, i))?;
            match it {
                Ok(it) => {
                    let (got, err) = lib("iter.next", || drain(it.take(2), 2))??;
                    chk!(err.is_none(), "iter-err", "iteration fails: {err:?}");
                    let want = w.snaps[vi].pairs.get(i).map(|p| p.0);
                    chk!(got.first().map(|x| x.0) == want, "iter-index", "entry {i} at version {ver} is {:?}, must be {:?}", got.first().map(|x| hx(&x.0)), want.map(|x| hx(&x)));
                }
                Err(e) => chk!(n_unknown(&w, ver)?, "iter-index-err", "entry {i} at version {ver}: {e:#}"),
            }
            c.count(if n_unknown(&w, ver)? { "versions_without_count" } else { "versions_counted_again" }, 1);
        }
    }
    Ok(())
}

fn n_unknown<S: TStore, H: SimpleHasher>(w: &World<S, H>, ver: u64) -> R<bool> {
    Ok(ok("get_leaf_count", || w.tree.get_leaf_count(ver))?.is_none())
}

// ---------------------------------------------------------------- J03

pub fn j03(c: &mut Case) -> R {
    on_stores!(c, j03_on)
}

pub fn as_ref_proof<H: SimpleHasher>(p: &SparseMerkleProof<H>) -> smt::Proof {
    // the only public view of a proof's leaf is its serialized form
    let leaf = p.leaf().map(|l| {
        let b = borsh::to_vec(&l).expect("leaf encodes");
        (b[..32].try_into().unwrap(), b[32..64].try_into().unwrap())
    });
    smt::Proof { leaf, siblings: p.siblings().to_vec() }
}

pub fn check_proof<S: TStore, H: SimpleHasher>(c: &mut Case, w: &World<S, H>, vi: usize, k: &K) -> R {
    let s = &w.snaps[vi];
    let ver = w.first + vi as u64;
    let key = KeyHash(*k);
    let want = s.map.get(k);
    let root = RootHash(s.want_root);
    let (val, p) = ok("get_with_proof", || w.tree.get_with_proof(key, ver))?;
    chk!(val.as_ref() == want, "proof-value", "get_with_proof({}) at version {ver}: value {:?}, must be {:?}", hx(k), val, want);
    let r = lib("verify", || p.verify(root, key, want))?;
    chk!(r.is_ok(), "verify", "proof for {} at version {ver} does not verify: {:?}", hx(k), r);
    let r = match want {
        Some(v) => lib("verify_existence", || p.verify_existence(root, key, v))?,
        None => lib("verify_nonexistence", || p.verify_nonexistence(root, key))?,
    };
    chk!(r.is_ok(), "verify2", "proof for {} at version {ver} does not verify: {:?}", hx(k), r);
    let h = want.map(|v| vh::<H>(v));
    let rp = as_ref_proof(&p);
    chk!(
        smt::verify(&rp, &s.want_root, k, h.as_ref()),
        "ref-verify",
        "the independent verifier rejects the proof for {} at version {ver}: {:?}",
        hx(k),
        rp
    );
    if want.is_some() {
        let r = lib("root_hash", || p.root_hash())?;
        chk!(r == root, "proof-root", "root recomputed from the proof for {} at {ver} is {:?}", hx(k), r);
    }
    let p2 = ok("get_proof", || w.tree.get_proof(key, ver))?;
    ok("tree.verify_proof", || w.tree.verify_proof(key, ver, root, p2))?;
    c.count("proofs_checked", 2);
    c.count(if want.is_some() { "inclusion_proofs" } else if rp.leaf.is_some() { "absence_by_other_leaf" } else { "absence_by_empty_slot" }, 1);
    if rp.siblings.len() > 64 {
        c.count("deep_proofs", 1);
    }
    Ok(())
}

fn j03_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    w.run(c)?;
    let n = 3 + 120 / w.snaps.len();
    for vi in 0..w.snaps.len() {
        for _ in 0..n {
            let k = probe_key(&mut c.rng, &w.keys);
            check_proof(c, &w, vi, &k)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- J04

pub fn mk_proof<H: SimpleHasher>(p: &smt::Proof) -> SparseMerkleProof<H> {
    let mut b = vec![];
    match &p.leaf {
        Some((k, v)) => {
            b.push(1);
            b.extend_from_slice(k);
            b.extend_from_slice(v);
        }
        None => b.push(0),
    }
    b.extend_from_slice(&(p.siblings.len() as u32).to_le_bytes());
    for s in &p.siblings {
        b.extend_from_slice(s);
    }
    SparseMerkleProof::<H>::try_from_slice(&b).expect("proof decodes")
}

pub fn j04(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => j04_on::<Obs, Kec>(c, Obs::default()),
        _ => j04_on::<Obs, Sha256>(c, Obs::default()),
    }
}

fn j04_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    w.run(c)?;
    for _ in 0..60 {
        let vi = w.pick_version(&mut c.rng);
        let s = &w.snaps[vi];
        let k0 = probe_key(&mut c.rng, &w.keys);
        // start from a genuine proof for k0 (or garbage) and then alter the proof and/or the claim
        let mut p = smt::proof(&s.pairs, &k0);
        let rng = &mut c.rng;
        let mut vi2 = vi;
        let mut k = k0;
        let mut claim: Option<V> = s.map.get(&k0).cloned();
        let mut what = String::new();
        for _ in 0..rng.range(0, 2) {
            let m = rng.below(16);
            what.push_str(&format!(" m{m}"));
            match m {
                0 => p.leaf = None,
                1 => {
                    // claim the leaf of some other live pair
                    if !s.pairs.is_empty() {
                        p.leaf = Some(*rng.pick(&s.pairs));
                    }
                }
                2 => p.leaf = Some((k, vh::<H>(claim.as_deref().unwrap_or(b"x")))),
                3 => {
                    if let Some(l) = &mut p.leaf {
                        let i = rng.below(256);
                        if rng.chance(1, 2) {
                            l.0 = flip(&l.0, i);
                        } else {
                            l.1 = flip(&l.1, i);
                        }
                    }
                }
                4 => {
                    if !p.siblings.is_empty() {
                        let i = rng.below(p.siblings.len());
                        let b = rng.below(256);
                        p.siblings[i] = flip(&p.siblings[i], b);
                    }
                }
                5 => {
                    if !p.siblings.is_empty() {
                        let i = rng.below(p.siblings.len());
                        p.siblings.remove(i);
                    }
                }
                6 => {
                    let i = rng.below(p.siblings.len() + 1);
                    let h = if rng.chance(1, 2) { smt::PLACEHOLDER } else { rng.b32() };
                    p.siblings.insert(i, h);
                }
                7 => {
                    if p.siblings.len() >= 2 {
                        let i = rng.below(p.siblings.len() - 1);
                        p.siblings.swap(i, i + 1);
                    }
                }
                8 => {
                    let n = *rng.pick(&[0usize, 1, 255, 256, 257, 300]);
                    let fill = if rng.chance(1, 2) { smt::PLACEHOLDER } else { rng.b32() };
                    if rng.chance(1, 2) {
                        p.siblings.resize(n, fill);
                    } else {
                        while p.siblings.len() < n {
                            p.siblings.insert(0, fill);
                        }
                    }
                }
                9 => {
                    k = probe_key(rng, &w.keys);
                }
                10 => {
                    k = probe_key(rng, &w.keys);
                    claim = s.map.get(&k).cloned();
                }
                11 => claim = None,
                12 => {
                    claim = Some(if !s.map.is_empty() && rng.chance(1, 2) {
                        s.map.values().nth(rng.below(s.map.len())).unwrap().clone()
                    } else {
                        gen_value(rng)
                    })
                }
                13 => vi2 = rng.below(w.snaps.len()),
                14 => {
                    // hide the key: present another leaf (or nothing) one level up
                    if !p.siblings.is_empty() {
                        let n = p.siblings.len();
                        let own = p.leaf.map_or(smt::PLACEHOLDER, |(a, b)| smt::leaf_hash(&a, &b));
                        let d = (n - 1).min(255);
                        let parent = if smt::bit(&k, d) {
                            smt::inner_hash(&p.siblings[0], &own)
                        } else {
                            smt::inner_hash(&own, &p.siblings[0])
                        };
                        p.siblings[0] = parent;
                    }
                }
                _ => {
                    // an absence proof that uses the nearest neighbour as witness
                    let nb = s.map.range(..k).next_back().or_else(|| s.map.range(k..).nth(1));
                    if let Some((nk, nv)) = nb {
                        p = smt::proof(&s.pairs, nk);
                        p.leaf = Some((*nk, vh::<H>(nv)));
                        claim = None;
                    }
                }
            }
        }
        let root = match rng.below(12) {
            0 => rng.b32(),
            1 => smt::PLACEHOLDER,
            _ => w.snaps[vi2].want_root,
        };
        let h = claim.as_ref().map(|v| vh::<H>(v));
        // The truth: a tree with this root is known, the claim holds in it, and the proof is the
        // one and only proof of it.
        let truth = w.snaps.iter().find(|s| s.want_root == root).map_or(false, |s| {
            s.map.get(&k) == claim.as_ref() && smt::proof(&s.pairs, &k) == p
        }) || (root == smt::PLACEHOLDER && claim.is_none() && p.leaf.is_none() && p.siblings.is_empty());
        debug_assert_eq!(truth, smt::verify(&p, &root, &k, h.as_ref()));
        let lp = mk_proof::<H>(&p);
        let mut rs = vec![lib("verify", || lp.verify(RootHash(root), KeyHash(k), claim.as_deref()))?.is_ok()];
        rs.push(match &claim {
            Some(v) => lib("verify_existence", || lp.verify_existence(RootHash(root), KeyHash(k), v))?.is_ok(),
            None => lib("verify_nonexistence", || lp.verify_nonexistence(RootHash(root), KeyHash(k)))?.is_ok(),
        });
        if w.snaps[vi2].map.get(&k) == claim.as_ref() {
            let ver = w.first + vi2 as u64;
            rs.push(
                lib("tree.verify_proof", || w.tree.verify_proof(KeyHash(k), ver, RootHash(root), lp.clone()))?.is_ok(),
            );
        }
        for r in rs {
            c.count("claims_checked", 1);
            if r && !truth {
                vio!(
                    "forged",
                    "verifier accepts a false or altered proof ({what}): key {} claim {:?} root {} proof {:?}",
                    hx(&k), claim, hx(&root), p
                );
            }
            chk!(r || !truth, "true-rejected", "verifier rejects the genuine proof: key {} root {} proof {:?}", hx(&k), hx(&root), p);
        }
        c.count(if truth { "genuine_proofs" } else { "forged_proofs" }, 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- J05

pub fn j05(c: &mut Case) -> R {
    on_stores!(c, j05_on)
}

fn j05_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    w.run(c)?;
    let n = 3 + 100 / w.snaps.len();
    for vi in 0..w.snaps.len() {
        let s = &w.snaps[vi];
        if s.map.is_empty() {
            continue;
        }
        let ver = w.first + vi as u64;
        for _ in 0..n {
            let k = probe_key(&mut c.rng, &w.keys);
            let r = ok("get_with_exclusion_proof", || w.tree.get_with_exclusion_proof(KeyHash(k), ver))?;
            let verify = |p: &SparseMerkleProof<H>, want: &K, side: &str| -> R {
                let rp = as_ref_proof(p);
                let v = &s.map[want];
                let good = smt::verify(&rp, &s.want_root, want, Some(&vh::<H>(v)));
                chk!(good, "neighbour", "{side} proof for {} at version {ver} is not an inclusion proof of {}: {:?}", hx(&k), hx(want), rp);
                let r = lib("verify", || p.verify(RootHash(s.want_root), KeyHash(*want), Some(v)))?;
                chk!(r.is_ok(), "neighbour-lib", "{side} proof for {} at version {ver} does not verify: {:?}", hx(&k), r);
                Ok(())
            };
            let below = s.map.range(..k).next_back().map(|x| *x.0);
            let above = s.map.range(succ_bound(&k)..).map(|x| *x.0).find(|x| *x > k);
            match (s.map.get(&k), r) {
                (Some(v), Ok((got, p))) => {
                    chk!(got == *v, "excl-value", "exclusion query of present {} at {ver} gives {:?}", hx(&k), got);
                    verify(&p, &k, "inclusion")?;
                    c.count("present_queries", 1);
                }
                (Some(_), Err(_)) => vio!("excl-present", "exclusion proof for present key {} at {ver}", hx(&k)),
                (None, Ok((v, _))) => vio!("excl-absent-value", "absent key {} at {ver} has value {:?}", hx(&k), v),
                (None, Err(e)) => match (e, below, above) {
                    (ExclusionProof::Leftmost { leftmost_right_proof }, None, Some(r)) => {
                        verify(&leftmost_right_proof, &r, "right")?;
                        c.count("leftmost", 1);
                    }
                    (ExclusionProof::Rightmost { rightmost_left_proof }, Some(l), None) => {
                        verify(&rightmost_left_proof, &l, "left")?;
                        c.count("rightmost", 1);
                    }
                    (ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof }, Some(l), Some(r)) => {
                        verify(&leftmost_right_proof, &r, "right")?;
                        verify(&rightmost_left_proof, &l, "left")?;
                        c.count("middle", 1);
                    }
                    (e, b, a) => vio!(
                        "excl-shape",
                        "exclusion proof of {} at {ver} has the wrong sides: {:?}; neighbours are {:?} / {:?}",
                        hx(&k), e, b.map(|x| hx(&x)), a.map(|x| hx(&x))
                    ),
                },
            }
        }
    }
    Ok(())
}

fn succ_bound(k: &K) -> K {
    *k
}

// ---------------------------------------------------------------- J06

fn pool() -> &'static Vec<(K, Vec<u8>)> {
    static P: std::sync::OnceLock<Vec<(K, Vec<u8>)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<(K, Vec<u8>)> = (0..20000u32)
            .map(|i| {
                let p = match i % 4 {
                    0 => i.to_le_bytes()[..1 + (i % 3) as usize].iter().copied().chain(i.to_be_bytes()).collect(),
                    1 => format!("key-{i}").into_bytes(),
                    2 => vec![(i / 4 % 251) as u8; 1 + (i / 1004) as usize],
                    _ => format!("{i}/store/ibc/{}", "x".repeat((i % 70) as usize)).into_bytes(),
                };
                (smt::sha(&[&p]), p)
            })
            .collect();
        v.sort();
        v.dedup_by(|a, b| a.0 == b.0);
        v
    })
}

fn ref_spec() -> ics23::ProofSpec {
    ics23::ProofSpec {
        leaf_spec: Some(ics23::LeafOp {
            hash: ics23::HashOp::Sha256.into(),
            prehash_key: ics23::HashOp::Sha256.into(),
            prehash_value: ics23::HashOp::Sha256.into(),
            length: ics23::LengthOp::NoPrefix.into(),
            prefix: b"JMT::LeafNode".to_vec(),
        }),
        inner_spec: Some(ics23::InnerSpec {
            hash: ics23::HashOp::Sha256.into(),
            child_order: vec![0, 1],
            min_prefix_length: 16,
            max_prefix_length: 16,
            child_size: 32,
            empty_child: smt::PLACEHOLDER.to_vec(),
        }),
        min_depth: 0,
        max_depth: 64,
        prehash_key_before_comparison: true,
    }
}

pub fn j06(c: &mut Case) -> R {
    if c.rng.chance(1, 3) {
        j06_on::<MockTreeStore>(c, MockTreeStore::default())
    } else {
        j06_on::<Obs>(c, Obs::default())
    }
}

fn j06_on<S: TStore>(c: &mut Case, st: S) -> R {
    let pool = pool();
    let mut w = World::<S, Sha256>::new(c, st);
    // replace the universe by hashes with known preimages, in clusters of neighbours
    let mut pre: BTreeMap<K, Vec<u8>> = BTreeMap::new();
    let n = c.rng.range(1, 30);
    while pre.len() < n {
        let i = match c.rng.below(8) {
            0 => 0,
            1 => pool.len() - 12,
            _ => c.rng.below(pool.len() - 12),
        };
        for j in 0..c.rng.range(1, 12) {
            if c.rng.chance(2, 3) {
                pre.insert(pool[i + j].0, pool[i + j].1.clone());
            }
        }
    }
    w.keys = pre.keys().copied().collect();
    for p in pre.values() {
        w.store.add_preimage(p);
    }
    for _ in 0..w.steps(c) {
        let mut sets = w.gen_group(c);
        for s in sets.iter_mut() {
            for x in s.iter_mut() {
                if x.1 == Some(vec![]) {
                    x.1 = Some(vec![1]); // ICS23 has no proofs for empty values
                }
            }
        }
        let batch = w.batch_ok(&sets) && c.rng.chance(1, 2);
        let (roots, b) = w.compute(c, &sets, batch)?;
        log_sets(c, w.next_version(), &sets, batch);
        let st = w.store.clone();
        ok("apply", move || st.apply(b))?;
        w.record(&sets, &roots)?;
        c.print_bytes(&roots[roots.len() - 1]);
    }
    c.nontrivial = w.snaps.len() >= 2 && w.snaps.iter().any(|s| s.map.len() >= 2);
    let universe: Vec<K> = w.keys.clone();
    let specs = [jmt::ics23_spec(), ref_spec()];
    for _ in 0..60 {
        let vi = w.pick_version(&mut c.rng);
        let s = &w.snaps[vi];
        let ver = w.first + vi as u64;
        if s.map.is_empty() {
            continue;
        }
        // the queried key: from the universe, its neighbourhood in the pool, or anywhere
        let (k, p) = {
            let u = *c.rng.pick(&universe);
            let i = pool.binary_search_by(|x| x.0.cmp(&u)).unwrap();
            let j = match c.rng.below(4) {
                0 => i,
                1 => i.saturating_sub(1),
                2 => (i + 1).min(pool.len() - 1),
                _ => c.rng.below(pool.len()),
            };
            pool[j].clone()
        };
        let want = s.map.get(&k).cloned();
        let (got, proof) = ok("get_with_ics23_proof", || w.tree.get_with_ics23_proof(p.clone(), ver))?;
        chk!(got == want, "ics23-value", "ics23 value of {} at {ver}: {:?}, must be {:?}", hx(&k), got, want);
        let root = s.want_root.to_vec();
        type HM = ics23::HostFunctionsManager;
        for (si, spec) in specs.iter().enumerate() {
            let mem = |r: &Vec<u8>, key: &[u8], v: &[u8]| {
                lib("verify_membership", || ics23::verify_membership::<HM>(&proof, spec, r, key, v))
            };
            let non = |r: &Vec<u8>, key: &[u8]| {
                lib("verify_non_membership", || ics23::verify_non_membership::<HM>(&proof, spec, r, key))
            };
            match &want {
                Some(v) => {
                    chk!(mem(&root, &p, v)?, "ics23-mem", "existence proof of {} at {ver} fails under spec {si}", hx(&k));
                    c.count("existence_verified", 1);
                    chk!(!non(&root, &p)?, "ics23-mem-as-non", "existence proof of {} proves absence", hx(&k));
                    let mut v2 = v.clone();
                    v2[0] ^= 1;
                    chk!(!mem(&root, &p, &v2)?, "ics23-value-forged", "existence proof of {} proves another value", hx(&k));
                }
                None => {
                    chk!(non(&root, &p)?, "ics23-non", "absence proof of {} at {ver} fails under spec {si}: {:?}", hx(&k), proof);
                    c.count("absence_verified", 1);
                    let v = gen_value(&mut c.rng);
                    let v = if v.is_empty() { vec![1] } else { v };
                    chk!(!mem(&root, &p, &v)?, "ics23-non-as-mem", "absence proof of {} proves presence", hx(&k));
                }
            }
            // any other key
            for _ in 0..3 {
                let (k2, p2) = {
                    let u = *c.rng.pick(&universe);
                    let i = pool.binary_search_by(|x| x.0.cmp(&u)).unwrap();
                    pool[(i + c.rng.below(3)).min(pool.len() - 1)].clone()
                };
                if k2 == k {
                    continue;
                }
                if s.map.contains_key(&k2) {
                    chk!(!non(&root, &p2)?, "ics23-other-non", "proof for {} proves absence of present {}", hx(&k), hx(&k2));
                } else {
                    // may legitimately cover other absent keys in the same gap
                    let _ = non(&root, &p2)?;
                }
                if let Some(v) = &want {
                    chk!(!mem(&root, &p2, v)?, "ics23-other-mem", "proof for {} proves presence of {}", hx(&k), hx(&k2));
                }
                c.count("foreign_keys_tried", 1);
            }
            // any other root
            let other = w.snaps[c.rng.below(w.snaps.len())].want_root;
            if other != s.want_root {
                let o = other.to_vec();
                let r = match &want {
                    Some(v) => mem(&o, &p, v)?,
                    None => non(&o, &p)?,
                };
                chk!(!r, "ics23-other-root", "ics23 proof for {} at {ver} verifies against another root", hx(&k));
                c.count("foreign_roots_tried", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- J07

pub fn j07(c: &mut Case) -> R {
    on_stores!(c, j07_on)
}

pub fn check_iter<S: TStore, H: SimpleHasher>(c: &mut Case, w: &World<S, H>, vi: usize) -> R {
    let s = &w.snaps[vi];
    let ver = w.first + vi as u64;
    let n = s.map.len();
    let cmp = |got: (Vec<(K, V)>, Option<String>), want: Vec<(K, V)>, what: String| -> R {
        if let Some(e) = got.1 {
            vio!("iter-err", "{what} at version {ver} fails: {e}");
        }
        if got.0 != want {
            vio!(
                "iter",
                "{what} at version {ver} gives {} pairs, must be {}; first difference at {:?}",
                got.0.len(), want.len(), got.0.iter().zip(&want).position(|(a, b)| a != b)
            );
        }
        Ok(())
    };
    let all: Vec<(K, V)> = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let it = ok("iter", || w.tree.iter(ver))?;
    cmp(lib("iter.next", || drain(it, n + 1))??, all.clone(), "iter()".into())?;
    for _ in 0..4 {
        let k = match c.rng.below(8) {
            0 => [0u8; 32],
            1 => [255u8; 32],
            _ => probe_key(&mut c.rng, &w.keys),
        };
        let it = ok("iter-new", || JellyfishMerkleIterator::new(w.store.clone(), ver, KeyHash(k)))?;
        let want: Vec<(K, V)> = s.map.range(k..).map(|(k, v)| (*k, v.clone())).collect();
        if want.is_empty() {
            c.count("starts_past_the_end", 1);
        } else if want.len() < n {
            c.count("starts_inside", 1);
        }
        cmp(lib("iter.next", || drain(it, n + 1))??, want, format!("iteration from {}", hx(&k)))?;
    }
    for _ in 0..2 {
        let i = match c.rng.below(5) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX,
            _ => c.rng.below(n + 1),
        };
        let it = ok("iter-index", || JellyfishMerkleIterator::new_by_index(w.store.clone(), ver, i))?;
        cmp(
            lib("iter.next", || drain(it, n + 1))??,
            all.get(i.min(n)..).unwrap_or(&[]).to_vec(),
            format!("iteration from index {i}"),
        )?;
    }
    c.count("iterations_checked", 7);
    Ok(())
}

fn j07_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    w.run(c)?;
    for vi in 0..w.snaps.len() {
        check_iter(c, &w, vi)?;
    }
    // an exhausted iterator stays exhausted
    let it = ok("iter", || w.tree.iter(w.first))?;
    let ended = lib("iter.next", || {
        let mut it = it;
        while let Some(Ok(_)) = it.next() {}
        it.next().is_none() && it.next().is_none()
    })?;
    chk!(ended, "iter-revives", "an exhausted iterator yields again");
    Ok(())
}

// ---------------------------------------------------------------- J08

pub fn j08(c: &mut Case) -> R {
    if c.rng.chance(1, 3) {
        return on_mock_purge(c);
    }
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    w.run(c)?;
    let n = w.snaps.len();
    // what each version really reads
    let mut reach: Vec<BTreeSet<NodeKey>> = vec![];
    let mut roots: BTreeSet<NodeKey> = BTreeSet::new();
    for vi in 0..n {
        let ver = w.first + vi as u64;
        w.store.start_log();
        ok("get_root_hash", || w.tree.get_root_hash(ver))?;
        let r = w.store.take_log();
        roots.extend(r.iter().cloned());
        w.store.start_log();
        let it = ok("iter-new", || JellyfishMerkleIterator::new(w.store.clone(), ver, KeyHash([0; 32])))?;
        let (got, err) = lib("iter.next", || drain(it, usize::MAX - 1))??;
        chk!(err.is_none(), "iter-err", "iteration fails: {err:?}");
        chk!(got.len() == w.snaps[vi].map.len(), "iter", "iteration incomplete at {ver}");
        let mut set: BTreeSet<NodeKey> = w.store.take_log().into_iter().collect();
        set.extend(r);
        reach.push(set);
    }
    // the stale index against what became unreachable
    let stale: Vec<StaleNodeIndex> = w.store.lock().stale.clone();
    let mut since: BTreeMap<NodeKey, u64> = BTreeMap::new();
    for s in &stale {
        if since.insert(s.node_key.clone(), s.stale_since_version).is_some() {
            vio!("stale-twice", "node {:?} is listed as stale twice", s.node_key);
        }
    }
    for (nk, sv) in &since {
        for (vi, r) in reach.iter().enumerate() {
            let ver = w.first + vi as u64;
            chk!(ver < *sv || !r.contains(nk), "stale-live", "node {nk:?} listed stale since {sv} is part of version {ver}");
        }
        c.count("stale_entries_checked", 1);
    }
    let all: BTreeSet<NodeKey> = w.store.dump().0.into_keys().collect();
    for nk in &all {
        if roots.contains(nk) {
            continue;
        }
        let vs: Vec<u64> = (0..n).filter(|i| reach[*i].contains(nk)).map(|i| w.first + i as u64).collect();
        let last = match vs.last() {
            Some(l) => *l,
            None => vio!("garbage", "node {nk:?} was written but is part of no version"),
        };
        let want = if last + 1 < w.first + n as u64 { Some(last + 1) } else { None };
        chk!(
            since.get(nk) == want.as_ref(),
            "stale-since",
            "node {nk:?} is last part of version {last} but listed stale since {:?}",
            since.get(nk)
        );
        c.count("nodes_classified", 1);
    }
    // purge step by step; everything later stays readable
    let mut upto = 0;
    while upto < n {
        upto += c.rng.range(1, 3);
        let upto_i = upto.min(n) - 1;
        let v = w.first + upto_i as u64;
        let gone: Vec<NodeKey> = since.iter().filter(|(_, s)| **s <= v).map(|(k, _)| k.clone()).collect();
        for k in &gone {
            w.store.remove_node(k);
        }
        c.count("nodes_purged", gone.len() as u64);
        for vi in upto_i..n {
            check_iter(c, &w, vi)?;
            for _ in 0..4 {
                let k = probe_key(&mut c.rng, &w.keys);
                check_proof(c, &w, vi, &k)?;
                check_reads(c, &w, vi, &k)?;
            }
        }
        if upto_i == n - 1 {
            for nk in w.store.dump().0.keys() {
                chk!(roots.contains(nk) || reach[n - 1].contains(nk), "not-reclaimed", "superseded node {nk:?} survives purging");
            }
        }
    }
    // and the pruned tree can be extended
    w.step(c)?;
    let vi = w.snaps.len() - 1;
    check_iter(c, &w, vi)?;
    Ok(())
}

/// After a purge up to version `low` the store holds root nodes and nodes of versions from `low` on.
fn only_needed_left(c: &mut Case, w: &World<MockTreeStore, Sha256>, low: usize) -> R {
    use jmt::db::VersionedDatabase;
    let have: Vec<(NodeKey, Node)> = lib("nodes", || w.store.nodes())?.collect();
    let hist: Vec<_> = lib("value_history", || w.store.value_history())?.collect();
    let obs = Arc::new(Obs::default());
    let mut b = NodeBatch::default();
    b.extend(have.iter().cloned(), hist.into_iter().flat_map(|(k, h)| h.into_iter().map(move |(v, x)| ((v.0, k), x))));
    ok("write_node_batch", || obs.write_node_batch(&b))?;
    let t = new_tree::<Obs, Sha256>(obs.clone(), true);
    obs.start_log();
    for vi in 0..w.snaps.len() {
        let _ = lib("get_root_hash_option", || t.get_root_hash_option(w.first + vi as u64).is_ok())?;
    }
    for vi in low..w.snaps.len() {
        let it = ok("iter-new", || JellyfishMerkleIterator::new(obs.clone(), w.first + vi as u64, KeyHash([0; 32])))?;
        let (_, err) = lib("iter.next", || drain(it, usize::MAX - 1))??;
        chk!(err.is_none(), "iter-err", "iteration fails after a purge: {err:?}");
    }
    let need: BTreeSet<NodeKey> = obs.take_log().into_iter().collect();
    for (nk, _) in &have {
        chk!(
            need.contains(nk),
            "not-reclaimed",
            "after purging up to version {} the store keeps {nk:?}, which is part of no version from there on",
            w.first + low as u64
        );
        c.count("left_nodes_checked", 1);
    }
    Ok(())
}

fn on_mock_purge(c: &mut Case) -> R {
    c.count("on_mock_store", 1);
    let mut w = World::<MockTreeStore, Sha256>::new(c, MockTreeStore::default());
    let mut low = 0usize;
    for _ in 0..w.steps(c) {
        w.step(c)?;
        let n = w.snaps.len();
        if c.rng.chance(1, 2) {
            let v = low + c.rng.below(n - low);
            low = v;
            let ver = w.first + v as u64;
            c.op(|| format!("purge_stale_nodes({ver})"));
            ok("purge_stale_nodes", || w.store.purge_stale_nodes(ver))?;
            c.count("purges", 1);
            if n <= 30 || c.rng.chance(1, 20) {
                only_needed_left(c, &w, low)?;
            }
        }
        for vi in low..n {
            check_iter(c, &w, vi)?;
            let k = probe_key(&mut c.rng, &w.keys);
            check_proof(c, &w, vi, &k)?;
            check_reads(c, &w, vi, &k)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- J09

fn permute_set(rng: &mut Rng, s: &Set) -> Set {
    // any order that keeps the relative order of writes to one key
    let mut idx: Vec<usize> = (0..s.len()).collect();
    rng.shuffle(&mut idx);
    let mut per_key: HashMap<K, Vec<usize>> = HashMap::new();
    for (i, (k, _)) in s.iter().enumerate() {
        per_key.entry(*k).or_default().push(i);
    }
    for v in per_key.values_mut() {
        v.reverse();
    }
    idx.iter().map(|i| s[per_key.get_mut(&s[*i].0).unwrap().pop().unwrap()].clone()).collect()
}

struct Run {
    roots: Vec<[u8; 32]>,
    nodes: BTreeMap<NodeKey, Node>,
    vals: BTreeMap<K, BTreeMap<u64, Option<V>>>,
    stale: BTreeSet<StaleNodeIndex>,
    stats: Vec<(usize, usize, usize, usize)>,
}

fn j09_run(c: &mut Case, first: u64, sets: &[Set], group: bool, batch: bool) -> R<Run> {
    let st = Arc::new(Obs::default());
    let t = JellyfishMerkleTree::<Obs, Sha256>::new(st.clone());
    let mut i = 0;
    let mut roots = vec![];
    let mut stats = vec![];
    while i < sets.len() {
        let n = if group { c.rng.range(1, sets.len() - i) } else { 1 };
        let b = batch && (i > 0 || first == 0);
        let (r, u) = compute_on(c, &t, &sets[i..i + n], first + i as u64, b)?;
        roots.extend(r);
        stats.extend(u.node_stats.iter().map(|s| (s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves)));
        let s2 = st.clone();
        ok("apply", move || s2.apply(u))?;
        i += n;
    }
    let (nodes, vals) = st.dump();
    // Root nodes are retired under whichever key the update found them (a version without effect
    // copies the root), so only the others are comparable.
    let mut root_keys = BTreeSet::new();
    for i in 0..sets.len() {
        st.start_log();
        ok("get_root_hash", || t.get_root_hash(first + i as u64))?;
        root_keys.extend(st.take_log());
    }
    let stale = st.lock().stale.iter().filter(|s| !root_keys.contains(&s.node_key)).cloned().collect();
    Ok(Run { roots, nodes, vals, stale, stats })
}

pub fn j09(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    if c.rng.chance(1, 3) {
        w.mix = Mix::Grow;
    }
    let grow = w.mix == Mix::Grow;
    let nv = w.steps(c);
    let mut cur = Map::new();
    let mut sets: Vec<Set> = vec![];
    for _ in 0..nv {
        let s = gen_set(&mut c.rng, &cur, &w.keys, w.mix, w.max_set);
        apply_set(&mut cur, &s);
        sets.push(s);
    }
    log_sets(c, w.first, &sets, false);
    c.nontrivial = nv >= 2 && cur.len() >= 2;
    let first = w.first;
    let a = j09_run(c, first, &sets, false, false)?;
    c.print_bytes(&a.roots[a.roots.len() - 1]);
    let same = |x: &Run, what: &str, nodes: bool| -> R {
        chk!(x.roots == a.roots, "roots-differ", "{what}: root hashes differ from one call per version");
        chk!(x.vals == a.vals, "values-differ", "{what}: stored values differ from one call per version");
        if nodes {
            chk!(x.nodes == a.nodes, "nodes-differ", "{what}: nodes differ from one call per version");
            chk!(x.stale == a.stale, "stale-differ", "{what}: stale nodes differ from one call per version");
            chk!(x.stats == a.stats, "stats-differ", "{what}: statistics differ from one call per version");
        }
        Ok(())
    };
    for _ in 0..2 {
        same(&j09_run(c, first, &sets, true, false)?, "several versions in one call", true)?;
        c.count("grouped_runs", 1);
    }
    let perm: Vec<Set> = sets.iter().map(|s| permute_set(&mut c.rng, s)).collect();
    same(&j09_run(c, first, &perm, true, false)?, "another order within the versions", grow)?;
    c.count("permuted_runs", 1);
    // only the last write to a key counts
    let dedup: Vec<Set> = sets
        .iter()
        .map(|s| {
            let m: BTreeMap<K, Option<V>> = s.iter().cloned().collect();
            m.into_iter().collect()
        })
        .collect();
    same(&j09_run(c, first, &dedup, false, false)?, "last writes only", grow)?;
    if sets.iter().all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some())) {
        same(&j09_run(c, first, &sets, false, true)?, "batch interface", true)?;
        same(&j09_run(c, first, &perm, true, true)?, "batch interface, several versions", true)?;
        c.count("batch_runs", 2);
    }
    // one key at a time ends in the same root and contents
    let singles: Vec<Set> = sets.iter().flatten().map(|x| vec![x.clone()]).collect();
    if !singles.is_empty() && singles.len() < 200 && first < u64::MAX - 1000 {
        let x = j09_run(c, first, &singles, true, false)?;
        chk!(x.roots.last() == a.roots.last(), "single-root", "one key at a time ends in another root");
        c.count("single_key_runs", 1);
    }
    c.count("versions_committed", nv as u64);
    Ok(())
}

// ---------------------------------------------------------------- J10

fn check_old(c: &mut Case, w: &World<Obs, Sha256>, what: &str) -> R {
    for _ in 0..3 {
        if w.snaps.is_empty() {
            return Ok(());
        }
        let vi = w.pick_version(&mut c.rng);
        let k = probe_key(&mut c.rng, &w.keys);
        let f = |v: Viol| Viol { sig: format!("isolation-{}", v.sig), msg: format!("{what}: {}", v.msg) };
        check_reads(c, w, vi, &k).map_err(f)?;
        check_proof(c, w, vi, &k).map_err(f)?;
        if c.rng.chance(1, 3) {
            check_iter(c, w, vi).map_err(f)?;
        }
    }
    Ok(())
}

fn check_batch_shape(c: &mut Case, w: &World<Obs, Sha256>, b: &TreeUpdateBatch, n: usize) -> R {
    let v0 = w.next_version();
    let (old, _) = w.store.dump();
    chk!(b.node_stats.len() == n, "stats-len", "{} statistics for {n} versions", b.node_stats.len());
    for nk in b.node_batch.nodes().keys() {
        chk!(
            nk.version() >= v0 && nk.version() - v0 < n as u64,
            "foreign-version",
            "the batch for versions {v0}..+{n} writes node {nk:?}"
        );
        chk!(!old.contains_key(nk), "overwrite", "the batch overwrites existing node {nk:?}");
    }
    for (ver, _) in b.node_batch.values().keys() {
        chk!(*ver >= v0 && *ver - v0 < n as u64, "foreign-value-version", "the batch writes a value at version {ver}");
    }
    for i in 0..n {
        let v = v0 + i as u64;
        let nodes: Vec<_> = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).collect();
        let leaves = nodes.iter().filter(|(_, n)| matches!(n, Node::Leaf(_))).count();
        let st: Vec<_> = b.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).collect();
        let mut sl = 0;
        for s in &st {
            let nd = b.node_batch.nodes().get(&s.node_key).or_else(|| old.get(&s.node_key));
            match nd {
                Some(Node::Leaf(_)) => sl += 1,
                Some(_) => {}
                None => vio!("stale-unknown", "the batch retires unknown node {:?}", s.node_key),
            }
        }
        let x = &b.node_stats[i];
        let got = (x.new_nodes, x.new_leaves, x.stale_nodes, x.stale_leaves);
        let want = (nodes.len(), leaves, st.len(), sl);
        chk!(got == want, "stats", "statistics of version {v} are {got:?}, must be {want:?} (new nodes, new leaves, stale nodes, stale leaves)");
        c.count("stats_checked", 1);
    }
    Ok(())
}

pub fn j10(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    for _ in 0..c.rng.range(0, 6) {
        w.step(c)?;
    }
    for _ in 0..c.rng.range(1, 4) {
        // several speculative updates from the same version, computed twice each
        let mut spec: Vec<(Vec<Set>, Vec<[u8; 32]>, TreeUpdateBatch, bool)> = vec![];
        let before = (w.store.dump(), w.store.lock().writes);
        for _ in 0..c.rng.range(1, 3) {
            let sets = w.gen_group(c);
            let batch = w.batch_ok(&sets) && c.rng.chance(1, 2);
            log_sets(c, w.next_version(), &sets, batch);
            let (r, b) = w.compute(c, &sets, batch)?;
            check_batch_shape(c, &w, &b, sets.len())?;
            let mut cur = w.cur.clone();
            for (s, r) in sets.iter().zip(&r) {
                apply_set(&mut cur, s);
                let want = smt::root(&pairs::<Sha256>(&cur));
                chk!(*r == want, "spec-root", "speculative update gives root {}, must be {}", hx(r), hx(&want));
            }
            spec.push((sets, r, b, batch));
            c.count("speculative_updates", 1);
        }
        let i = c.rng.below(spec.len());
        for _ in 0..2 {
            let (sets, r, b, batch) = &spec[i];
            let again = w.compute(c, sets, *batch)?;
            chk!(again.0 == *r && again.1 == *b, "nondeterministic", "the same update computed twice differs");
        }
        let after = (w.store.dump(), w.store.lock().writes);
        chk!(before.0 == after.0 && before.1 == after.1, "compute-writes", "computing an update wrote to the store");
        check_old(c, &w, "before applying")?;

        // crash: only a part of the batch reaches the store
        let (sets, r, b, batch) = spec.swap_remove(i);
        let clean = w.store.fork();
        let cb = b.clone();
        ok("apply", || clean.apply(cb))?;
        for _ in 0..c.rng.below(3) {
            let prefix = c.rng.chance(1, 2);
            let total = b.node_batch.nodes().len() + b.node_batch.values().len();
            let cut = c.rng.below(total + 1);
            let mut j = 0;
            let mut ns: Vec<(&NodeKey, &Node)> = vec![];
            let mut vs: Vec<(&(u64, KeyHash), &Option<V>)> = vec![];
            for x in b.node_batch.nodes() {
                if if prefix { j < cut } else { c.rng.chance(1, 2) } {
                    ns.push(x);
                }
                j += 1;
            }
            for x in b.node_batch.values() {
                if if prefix { j < cut } else { c.rng.chance(1, 2) } {
                    vs.push(x);
                }
                j += 1;
            }
            c.op(|| format!("crash after {} nodes and {} values", ns.len(), vs.len()));
            w.store.put_nodes(ns.into_iter());
            w.store.put_vals(vs.into_iter());
            c.count("partial_applications", 1);
            check_old(c, &w, "after a partial application")?;
            let again = w.compute(c, &sets, batch)?;
            chk!(again.0 == r, "recompute-root", "recomputing after a crash gives other root hashes");
            let redo = w.store.fork();
            ok("apply", || redo.update_batch_nodes(&again.1))?;
            chk!(redo.dump() == clean.dump(), "recompute-state", "recomputing and applying after a crash leads to another state");
            // the retired nodes must be the same
            chk!(
                again.1.stale_node_index_batch == b.stale_node_index_batch,
                "recompute-stale",
                "recomputing after a crash retires other nodes: {:?} instead of {:?}",
                again.1.stale_node_index_batch, b.stale_node_index_batch
            );
            c.count("recomputed_after_crash", 1);
        }
        let times = c.rng.range(1, 2);
        for _ in 0..times {
            let bb = b.clone();
            let st = w.store.clone();
            ok("apply", move || st.write_node_batch(&bb.node_batch))?;
        }
        w.store.lock().stale.extend(b.stale_node_index_batch.iter().cloned());
        chk!(w.store.dump() == clean.dump(), "state-differs", "the state after crash and redo differs from an uninterrupted run");
        w.record(&sets, &r)?;
        let h = *r.last().unwrap();
        c.print_bytes(&h);
        for vi in 0..w.snaps.len() {
            let k = probe_key(&mut c.rng, &w.keys);
            check_reads(c, &w, vi, &k)?;
            check_proof(c, &w, vi, &k)?;
        }
    }
    if w.snaps.len() >= 2 && w.snaps.iter().any(|s| s.map.len() >= 2) {
        c.nontrivial = true;
    }
    Ok(())
}

// ---------------------------------------------------------------- J11

#[derive(Clone, Debug)]
enum Op {
    Get(K, u64),
    Contains(K, u64),
    Proof(K, u64),
    GetProof(K, u64),
    Excl(K, u64),
    Range(K, u64),
    Iter(K, u64),
    IterIdx(usize, u64),
    TrieIter(u64),
    Root(u64),
    RootOpt(u64),
    Count(u64),
    Put(Vec<Set>, u64, bool),
}

/// The answer as text; for iterations the pairs up to an error that stays, and whether it ended well.
fn run_op(w: &World<Obs, Sha256>, op: &Op) -> anyhow::Result<(Vec<String>, bool)> {
    let t = &w.tree;
    let one = |s: String| Ok((vec![s], true));
    fn list<I: Iterator<Item = anyhow::Result<(KeyHash, V)>>>(it: I) -> anyhow::Result<(Vec<String>, bool)> {
        let mut v = vec![];
        // after an error the iterator is asked again: what failed once may succeed then
        let mut failed = false;
        for x in it.take(5000) {
            match x {
                Ok(p) => {
                    failed = false;
                    v.push(format!("{p:?}"))
                }
                Err(_) if failed => return Ok((v, false)),
                Err(_) => failed = true,
            }
        }
        Ok((v, true))
    }
    match op {
        Op::Get(k, v) => one(format!("{:?}", t.get(KeyHash(*k), *v)?)),
        Op::Contains(k, v) => one(format!("{:?}", t.contains(KeyHash(*k), *v)?)),
        Op::Proof(k, v) => one(format!("{:?}", t.get_with_proof(KeyHash(*k), *v)?)),
        Op::GetProof(k, v) => one(format!("{:?}", t.get_proof(KeyHash(*k), *v)?)),
        Op::Excl(k, v) => one(format!("{:?}", t.get_with_exclusion_proof(KeyHash(*k), *v)?)),
        Op::Range(k, v) => one(format!("{:?}", t.get_range_proof(KeyHash(*k), *v)?)),
        Op::Iter(k, v) => list(JellyfishMerkleIterator::new(w.store.clone(), *v, KeyHash(*k))?),
        Op::IterIdx(i, v) => list(JellyfishMerkleIterator::new_by_index(w.store.clone(), *v, *i)?),
        Op::TrieIter(v) => list(t.iter(*v)?),
        Op::Root(v) => one(format!("{:?}", t.get_root_hash(*v)?)),
        Op::RootOpt(v) => one(format!("{:?}", t.get_root_hash_option(*v)?)),
        Op::Count(v) => one(format!("{:?}", t.get_leaf_count(*v)?)),
        Op::Put(sets, v, batch) => {
            if *batch {
                let s = sets
                    .iter()
                    .map(|s| s.iter().map(|(k, v)| (KeyHash(*k), v.clone().unwrap())).collect())
                    .collect();
                one(format!("{:?}", t.batch_put_value_sets(s, None, *v)?))
            } else {
                one(format!("{:?}", t.put_value_sets(sets.iter().map(kset), *v)?))
            }
        }
    }
}

pub fn j11(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    w.run(c)?;
    let n = w.snaps.len();
    let roots: BTreeSet<NodeKey> = {
        w.store.start_log();
        for vi in 0..n {
            ok("get_root_hash", || w.tree.get_root_hash(w.first + vi as u64))?;
        }
        w.store.take_log().into_iter().collect()
    };
    let nodes: Vec<NodeKey> = w.store.dump().0.into_keys().filter(|k| !roots.contains(k)).collect();
    for _ in 0..10 {
        let vi = w.pick_version(&mut c.rng);
        let ver = w.first + vi as u64;
        let s = &w.snaps[vi];
        let k = probe_key(&mut c.rng, &w.keys);
        let live = if s.map.is_empty() { k } else { *s.map.keys().nth(c.rng.below(s.map.len())).unwrap() };
        let op = match c.rng.below(15) {
            0 => Op::Get(k, ver),
            1 => Op::Contains(k, ver),
            2 => Op::Proof(k, ver),
            3 => Op::GetProof(live, ver),
            4 | 5 => Op::Excl(k, ver),
            6 => Op::Range(live, ver),
            7 => Op::Iter(k, ver),
            8 => Op::IterIdx(c.rng.below(s.map.len() + 1), ver),
            9 => Op::TrieIter(ver),
            10 => match c.rng.below(3) {
                0 => Op::Root(ver),
                1 => Op::RootOpt(ver),
                _ => Op::Count(ver),
            },
            _ => {
                let sets = w.gen_group(c);
                let b = w.batch_ok(&sets) && c.rng.chance(1, 2);
                Op::Put(sets, w.next_version(), b)
            }
        };
        c.op(|| format!("operation under faults: {op:?}"));
        w.store.arm(None, BUDGET);
        let healthy = match lib("op", || run_op(&w, &op))? {
            Ok(x) => Some(x),
            Err(_) => None, // e.g. exclusion proof on the empty tree, range proof of an absent key
        };
        let reads = w.store.lock().reads;
        let before = w.store.lock().writes;
        let judge = |got: anyhow::Result<(Vec<String>, bool)>, what: &str| -> R<bool> {
            match (got, &healthy) {
                (Err(_), _) => Ok(false),
                (Ok((g, complete)), Some((h, _))) => {
                    let good = if complete { g == *h } else { h.starts_with(&g) };
                    chk!(good, "wrong-under-fault", "{what}: {op:?} answers {:?} (complete: {complete}), must be {:?}", trunc(&g), trunc(h));
                    Ok(complete)
                }
                (Ok((g, true)), None) => {
                    vio!("wrong-under-fault", "{what}: {op:?} answers {:?}, but fails on a healthy store", trunc(&g))
                }
                (Ok((_, false)), None) => Ok(false),
            }
        };
        // every read in turn fails
        let idx: Vec<u64> = if reads <= 40 {
            (1..=reads).collect()
        } else {
            (0..30).map(|_| 1 + c.rng.below(reads as usize) as u64).collect()
        };
        for i in idx {
            w.store.arm(Some(i), BUDGET);
            let got = lib("op-under-read-failure", || run_op(&w, &op))?;
            let node = w.store.lock().failed_node.clone();
            if let (Err(e), Some(k)) = (&got, node) {
                chk!(
                    roots.contains(&k) || healthy.is_none() || e.downcast_ref::<jmt::MissingRootError>().is_none(),
                    "blames-root",
                    "{op:?} reports a missing root ({e}) when the read of {k:?} fails"
                );
            }
            let done = judge(got, &format!("store read {i} fails"))?;
            c.count("read_failures_injected", w.store.lock().failed);
            c.count(if done { "faults_survived" } else { "faults_reported" }, 1);
        }
        w.store.arm(None, BUDGET);
        // lost nodes
        if !nodes.is_empty() {
            for _ in 0..8 {
                let m = if c.rng.chance(2, 3) { 1 } else { c.rng.range(1, 4) };
                let lost: Vec<NodeKey> = if c.rng.chance(2, 3) {
                    // one that the operation reads
                    w.store.start_log();
                    let _ = lib("op", || run_op(&w, &op))?;
                    let l: Vec<NodeKey> = w.store.take_log().into_iter().filter(|k| !roots.contains(k)).collect();
                    if l.is_empty() { vec![c.rng.pick(&nodes).clone()] } else { vec![c.rng.pick(&l).clone()] }
                } else {
                    (0..m).map(|_| c.rng.pick(&nodes).clone()).collect()
                };
                w.store.lock().lost = lost.iter().cloned().collect();
                let got = lib("op-with-lost-nodes", || run_op(&w, &op))?;
                // only nodes other than roots are lost
                if let Err(e) = &got {
                    chk!(
                        e.downcast_ref::<jmt::MissingRootError>().is_none(),
                        "blames-root",
                        "{op:?} reports a missing root ({e}) when nodes {lost:?} are lost, and roots are there"
                    );
                }
                let done = judge(got, &format!("lost nodes {lost:?}"))?;
                c.count(if done { "losses_irrelevant" } else { "losses_reported" }, 1);
                w.store.lock().lost.clear();
            }
        }
        // lost values: the reads that go through the tree must notice
        if !s.map.is_empty() && matches!(op, Op::Proof(..) | Op::GetProof(..) | Op::Iter(..) | Op::TrieIter(..) | Op::IterIdx(..) | Op::Excl(..) | Op::Range(..)) {
            w.store.lock().lost_vals.insert(live);
            let got = lib("op-with-lost-value", || run_op(&w, &op))?;
            judge(got, &format!("lost value of {}", hx(&live)))?;
            w.store.lock().lost_vals.clear();
            c.count("value_losses", 1);
        }
        // healthy again: the same call gives the healthy answer, nothing was left behind
        chk!(w.store.lock().writes == before, "fault-wrote", "a failed {op:?} wrote to the store");
        let again = lib("op", || run_op(&w, &op))?.ok();
        chk!(again == healthy, "not-recovered", "{op:?} answers differently after the store recovered");
    }
    // and the tree can go on
    w.store.arm(None, 0);
    w.step(c)?;
    let vi = w.snaps.len() - 1;
    for k in w.keys.clone().iter().take(10) {
        check_reads(c, &w, vi, k)?;
    }
    Ok(())
}

fn trunc(v: &[String]) -> String {
    let s = format!("{v:?}");
    s.chars().take(600).collect()
}

// ---------------------------------------------------------------- J14

pub fn mk_range_proof(s: &[[u8; 32]]) -> SparseMerkleRangeProof {
    let mut b = (s.len() as u32).to_le_bytes().to_vec();
    for x in s {
        b.extend_from_slice(x);
    }
    SparseMerkleRangeProof::try_from_slice(&b).expect("range proof decodes")
}

pub fn j14(c: &mut Case) -> R {
    match c.rng.below(3) {
        0 => j14_on::<MockTreeStore, Sha256>(c, MockTreeStore::default()),
        1 => j14_on::<Obs, Kec>(c, Obs::default()),
        _ => j14_on::<Obs, Sha256>(c, Obs::default()),
    }
}

fn j14_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let mut w = World::<S, H>::new(c, st);
    w.run(c)?;
    for _ in 0..16 {
        let vi = w.pick_version(&mut c.rng);
        let s = &w.snaps[vi];
        let ver = w.first + vi as u64;
        let root = RootHash(s.want_root);
        // absent keys have no range proof
        let a = probe_key(&mut c.rng, &w.keys);
        if !s.map.contains_key(&a) {
            let r = lib("get_range_proof", || w.tree.get_range_proof(KeyHash(a), ver))?;
            chk!(r.is_err(), "range-absent", "range proof for absent key {} at {ver}", hx(&a));
        }
        if s.map.is_empty() {
            continue;
        }
        let i = match c.rng.below(4) {
            0 => s.pairs.len() - 1,
            1 => 0,
            _ => c.rng.below(s.pairs.len()),
        };
        let (k, h) = s.pairs[i];
        let p = ok("get_range_proof", || w.tree.get_range_proof(KeyHash(k), ver))?;
        let right = p.right_siblings().to_vec();
        let leaf = |k: K, h: [u8; 32]| LeafNode::new(KeyHash(k), ValueHash(h)).into();
        let left = smt::left_from_prefix(&s.pairs[..=i], right.len());
        let r = lib("range.verify", || p.verify(root, leaf(k, h), left.clone()))?;
        chk!(r.is_ok(), "range", "range proof up to {} at {ver} does not verify: {:?}", hx(&k), r);
        chk!(right == smt::side_siblings(&s.pairs, &k, true), "range-siblings", "range proof up to {} at {ver} has wrong right siblings", hx(&k));
        c.count("range_proofs_verified", 1);
        // alterations of the data
        for _ in 0..6 {
            let mut data: Vec<(K, [u8; 32])> = s.pairs[..=i].to_vec();
            let rng = &mut c.rng;
            match rng.below(4) {
                0 => {
                    let j = rng.below(data.len());
                    data.remove(j);
                }
                1 => {
                    let j = rng.below(data.len());
                    let b = rng.below(256);
                    data[j].1 = flip(&data[j].1, b);
                }
                2 => {
                    let x = probe_key(rng, &w.keys);
                    if data.iter().any(|(k, _)| *k == x) {
                        continue;
                    }
                    data.push((x, rng.b32()));
                    data.sort();
                }
                _ => {
                    let j = rng.below(data.len());
                    let b = gen_depth(rng);
                    data[j].0 = flip(&data[j].0, b);
                    data.sort();
                    if data.windows(2).any(|w| w[0].0 == w[1].0) {
                        continue;
                    }
                }
            }
            if data.is_empty() {
                continue;
            }
            let (k2, h2) = *data.last().unwrap();
            // The claim "exactly these pairs up to k2" may still be true of a smaller bound.
            let true_claim = s.pairs.partition_point(|x| x.0 <= k2) == data.len() && s.pairs[..data.len()] == data[..];
            let left = smt::left_from_prefix(&data, right.len());
            let r = lib("range.verify", || p.verify(root, leaf(k2, h2), left))?;
            chk!(r.is_err() || true_claim, "range-forged", "a range proof verifies for altered data up to {} at {ver}", hx(&k2));
            c.count("altered_data_refused", 1);
        }
        // alterations of the proof or of the left side
        for _ in 0..8 {
            let rng = &mut c.rng;
            let (mut l, mut r) = (left.clone(), right.clone());
            {
                let x = if rng.chance(1, 2) { &mut l } else { &mut r };
                match rng.below(6) {
                    0 if !x.is_empty() => {
                        let j = rng.below(x.len());
                        x.remove(j);
                    }
                    1 if !x.is_empty() => {
                        let j = rng.below(x.len());
                        let b = rng.below(256);
                        x[j] = flip(&x[j], b);
                    }
                    2 if x.len() > 1 => {
                        let j = rng.below(x.len() - 1);
                        x.swap(j, j + 1);
                    }
                    3 => {
                        let n = *rng.pick(&[127usize, 128, 200, 255, 256, 257, 258, 400]);
                        x.resize(n, smt::PLACEHOLDER);
                    }
                    4 => {
                        let j = rng.below(x.len() + 1);
                        let h = if rng.chance(1, 2) { smt::PLACEHOLDER } else { rng.b32() };
                        x.insert(j, h);
                    }
                    _ => x.push(rng.b32()),
                }
            }
            if l == left && r == right {
                continue;
            }
            let p2 = mk_range_proof(&r);
            let v = lib("range.verify", || p2.verify(root, leaf(k, h), l.clone()))?;
            chk!(v.is_err(), "range-altered", "an altered range proof verifies: left {} right {} siblings", l.len(), r.len());
            c.count("altered_proofs_refused", 1);
            if l.len() + r.len() > 256 {
                c.count("oversized_proofs_refused", 1);
            }
        }
        // another root
        let o = w.snaps[c.rng.below(w.snaps.len())].want_root;
        if o != s.want_root {
            let v = lib("range.verify", || p.verify(RootHash(o), leaf(k, h), left.clone()))?;
            chk!(v.is_err(), "range-root", "a range proof verifies against another root");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- J15

fn rt_serde<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Case, t: &T, what: &str) -> R {
    for f in 0..2 {
        let enc = lib("encode", || if f == 0 { serde_json::to_vec(t).ok() } else { bincode::serialize(t).ok() })?;
        let b = match enc {
            Some(b) => b,
            None => vio!("encode", "{what} cannot be encoded: {t:?}"),
        };
        let back: Option<T> = lib("decode", || if f == 0 { serde_json::from_slice(&b).ok() } else { bincode::deserialize(&b).ok() })?;
        chk!(back.as_ref() == Some(t), "roundtrip-serde", "{what} does not survive {}: {:?} became {:?}", ["json", "bincode"][f], t, back);
        let b2 = lib("encode", || if f == 0 { serde_json::to_vec(&back.unwrap()).ok() } else { bincode::serialize(&back.unwrap()).ok() })?;
        chk!(b2 == Some(b.clone()), "reencode-serde", "{what} re-encodes differently");
        // corrupted bytes
        let bad = corrupt(&mut c.rng, b);
        let _ = lib("decode-corrupted", || {
            if f == 0 {
                serde_json::from_slice::<T>(&bad).is_ok()
            } else {
                bincode::deserialize::<T>(&bad).is_ok()
            }
        })?;
        c.count("roundtrips", 1);
    }
    Ok(())
}

fn rt_borsh<T: borsh::BorshSerialize + BorshDeserialize + PartialEq + std::fmt::Debug>(c: &mut Case, t: &T, what: &str) -> R {
    let b = ok("borsh-encode", || borsh::to_vec(t))?;
    let back = ok("borsh-decode", || T::try_from_slice(&b))?;
    chk!(back == *t, "roundtrip-borsh", "{what} does not survive borsh: {:?} became {:?}", t, back);
    let b2 = ok("borsh-encode", || borsh::to_vec(&back))?;
    chk!(b == b2, "reencode-borsh", "{what} re-encodes differently");
    for _ in 0..2 {
        let bad = corrupt(&mut c.rng, b.clone());
        let r = lib("decode-corrupted", || T::try_from_slice(&bad).is_ok())?;
        c.count(if r { "corrupted_decoded" } else { "corrupted_refused" }, 1);
    }
    c.count("roundtrips", 1);
    Ok(())
}

fn corrupt(rng: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    if b.is_empty() {
        return rng.bytes(3);
    }
    for _ in 0..rng.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let i = rng.below(b.len());
        match rng.below(4) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b[i] = *rng.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]),
            2 => b.truncate(i),
            _ => b.insert(i, rng.byte()),
        }
    }
    b
}

/// What an earlier build of the library stored, and the same objects made now.
pub fn stored_forms() -> R<Vec<(String, Vec<u8>, Box<dyn Fn(&[u8]) -> bool + Send>)>> {
    let mut out: Vec<(String, Vec<u8>, Box<dyn Fn(&[u8]) -> bool + Send>)> = vec![];
    fn b<T: borsh::BorshSerialize + BorshDeserialize + PartialEq + Send + 'static>(out: &mut Vec<(String, Vec<u8>, Box<dyn Fn(&[u8]) -> bool + Send>)>, n: String, t: T) {
        let e = borsh::to_vec(&t).unwrap_or_default();
        out.push((n, e, Box::new(move |x| T::try_from_slice(x).ok().as_ref() == Some(&t))));
    }
    fn s<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Clone + Send + 'static>(out: &mut Vec<(String, Vec<u8>, Box<dyn Fn(&[u8]) -> bool + Send>)>, n: String, t: T) {
        let e = serde_json::to_vec(&t).unwrap_or_default();
        let t2 = t.clone();
        out.push((format!("{n}-json"), e, Box::new(move |x| serde_json::from_slice::<T>(x).ok().as_ref() == Some(&t2))));
        let e = bincode::serialize(&t).unwrap_or_default();
        out.push((format!("{n}-bincode"), e, Box::new(move |x| bincode::deserialize::<T>(x).ok().as_ref() == Some(&t))));
    }
    let mut rng = Rng::new(20240);
    let keys = gen_keys(&mut rng, 9);
    let st = Arc::new(Obs::default());
    for ver in 0..3u64 {
        let t = new_tree::<Obs, Sha256>(st.clone(), ver > 0);
        let set: Vec<_> = keys
            .iter()
            .enumerate()
            .filter(|(i, _)| ver == 0 || (*i as u64 + ver) % 4 == 0)
            .map(|(i, k)| (KeyHash(*k), if (i as u64 + ver) % 8 == 4 { None } else { Some(vec![i as u8, ver as u8, 7]) }))
            .collect();
        let (root, batch) = ok("put_value_set", || t.put_value_set(set, ver))?;
        for (i, (k, n)) in batch.node_batch.nodes().iter().enumerate() {
            if i % 5 == 0 || matches!(n, Node::Leaf(_)) && i % 3 == 0 {
                b(&mut out, format!("key-{ver}-{i}"), k.clone());
                s(&mut out, format!("key-{ver}-{i}"), k.clone());
                b(&mut out, format!("node-{ver}-{i}"), n.clone());
                s(&mut out, format!("node-{ver}-{i}"), n.clone());
            }
        }
        b(&mut out, format!("batch-{ver}"), batch.clone());
        s(&mut out, format!("root-{ver}"), root);
        ok("apply", || st.apply(batch))?;
        for (i, k) in keys.iter().enumerate().take(3) {
            let (v, p) = ok("get_with_proof", || t.get_with_proof(KeyHash(*k), ver))?;
            let e = borsh::to_vec(&p).unwrap_or_default();
            let q = as_ref_proof(&p);
            out.push((format!("proof-{ver}-{i}"), e, Box::new(move |x| SparseMerkleProof::<Sha256>::try_from_slice(x).ok().map(|p| as_ref_proof(&p)) == Some(smt::Proof { leaf: q.leaf, siblings: q.siblings.clone() }))));
            if v.is_some() {
                let p = ok("get_range_proof", || t.get_range_proof(KeyHash(*k), ver))?;
                b(&mut out, format!("range-{ver}-{i}"), p);
            }
        }
    }
    Ok(out)
}

fn j15_stored(c: &mut Case) -> R {
    let mut at = HashMap::new();
    for l in include_str!("stored_forms.txt").lines() {
        if let Some((n, h)) = l.split_once(' ') {
            at.insert(n, (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
        }
    }
    for (n, e, same) in stored_forms()? {
        let Some(old) = at.get(n.as_str()) else { continue };
        let r = lib("decode", || same(old))?;
        chk!(r, "stored-form", "{n}: bytes stored by an earlier build no longer decode to the same value");
        chk!(n.ends_with("-json") || &e == old, "stored-encoding", "{n} is now encoded as {}, was {}", hx(&e), hx(old));
        c.count("stored_forms_read", 1);
    }
    Ok(())
}

pub fn j15(c: &mut Case) -> R {
    if c.rng.chance(1, 400) {
        j15_stored(c)?;
    }
    let codec = *c.rng.pick(&[Codec::Borsh, Codec::Json, Codec::Bincode]);
    c.count(match codec { Codec::Borsh => "borsh_store", Codec::Json => "json_store", _ => "bincode_store" }, 1);
    // a store that only keeps bytes answers everything like the model
    let mut w = World::<Obs, Sha256>::new(c, Obs::with_codec(codec));
    for _ in 0..w.steps(c).min(6) {
        let sets = w.gen_group(c);
        let batch = w.batch_ok(&sets) && c.rng.chance(1, 2);
        w.migration = c.rng.chance(4, 5);
        let (roots, b) = w.compute(c, &sets, batch)?;
        log_sets(c, w.next_version(), &sets, batch);
        // the batch itself travels as bytes
        rt_borsh(c, &b, "update batch")?;
        rt_borsh(c, &b.node_batch, "node batch")?;
        for s in b.node_stats.iter() {
            rt_borsh(c, s, "statistics")?;
        }
        for s in b.stale_node_index_batch.iter().take(5) {
            rt_borsh(c, s, "stale index")?;
        }
        for (k, n) in b.node_batch.nodes() {
            if c.rng.chance(1, 3) {
                rt_borsh(c, k, "node key")?;
                rt_serde(c, k, "node key")?;
                rt_borsh(c, n, "node")?;
                rt_serde(c, n, "node")?;
                if let Node::Internal(i) = n {
                    rt_serde(c, i, "internal node")?;
                    rt_borsh(c, i, "internal node")?;
                    c.count("internal_nodes", 1);
                }
                if let Node::Leaf(l) = n {
                    rt_serde(c, l, "leaf node")?;
                    rt_borsh(c, l, "leaf node")?;
                }
            }
        }
        let bytes = ok("borsh-encode", || borsh::to_vec(&b))?;
        let back = ok("borsh-decode", || TreeUpdateBatch::try_from_slice(&bytes))?;
        let st = w.store.clone();
        ok("apply", move || st.apply(back))?;
        w.record(&sets, &roots)?;
        let h = roots[roots.len() - 1];
        c.print_bytes(&h);
        rt_serde(c, &RootHash(h), "root hash")?;
    }
    c.nontrivial = w.snaps.len() >= 2 && w.snaps.iter().any(|s| s.map.len() >= 2);
    for vi in 0..w.snaps.len() {
        let s = &w.snaps[vi];
        let ver = w.first + vi as u64;
        let r = ok("get_root_hash", || w.tree.get_root_hash(ver))?.0;
        chk!(r == s.want_root, "root", "byte store: root at {ver} is {}", hx(&r));
        for _ in 0..5 {
            let k = probe_key(&mut c.rng, &w.keys);
            check_reads(c, &w, vi, &k)?;
            check_proof(c, &w, vi, &k)?;
            let p = ok("get_with_proof", || w.tree.get_with_proof(KeyHash(k), ver))?.1;
            let b = ok("borsh-encode", || borsh::to_vec(&p))?;
            let back = ok("borsh-decode", || SparseMerkleProof::<Sha256>::try_from_slice(&b))?;
            chk!(as_ref_proof(&back) == as_ref_proof(&p) && borsh::to_vec(&back).ok() == Some(b.clone()), "roundtrip-proof", "proof does not survive borsh: {p:?}");
            // the serde forms exist only for hashers that are themselves serializable
            let pk = ok("borsh-decode", || SparseMerkleProof::<Kec>::try_from_slice(&b))?;
            rt_serde(c, &pk, "proof")?;
            let bad = corrupt(&mut c.rng, b);
            let _ = lib("decode-corrupted", || SparseMerkleProof::<Sha256>::try_from_slice(&bad).is_ok())?;
            rt_serde(c, &KeyHash(k), "key hash")?;
            rt_borsh(c, &KeyHash(k), "key hash")?;
            if let Some(l) = p.leaf() {
                rt_serde(c, &l, "proof leaf")?;
                rt_borsh(c, &l, "proof leaf")?;
            }
            if s.map.contains_key(&k) {
                let p = ok("get_range_proof", || w.tree.get_range_proof(KeyHash(k), ver))?;
                rt_borsh(c, &p, "range proof")?;
                rt_serde(c, &p, "range proof")?;
            }
        }
        // iteration needs leaf counts, which may be off; the key iterator does not
        let it = ok("iter-new", || JellyfishMerkleIterator::new(w.store.clone(), ver, KeyHash([0; 32])))?;
        let (got, e) = lib("iter.next", || drain(it, s.map.len() + 1))??;
        let want: Vec<(K, V)> = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
        chk!(e.is_none() && got == want, "iter", "byte store: iteration at {ver} is wrong: {e:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- J16

pub fn j16(c: &mut Case) -> R {
    if c.rng.chance(1, 3) {
        return on_stores!(c, j16_tree);
    }
    if c.rng.chance(1, 10) {
        return j16_batch(c);
    }
    use jmt::db::{Version as Ver, VersionedDatabase};
    let st = MockTreeStore::new(c.rng.chance(1, 2));
    let mut model: BTreeMap<K, Vec<(u64, Option<V>)>> = BTreeMap::new();
    // now and then long histories of few keys
    let deep = c.rng.chance(1, 100);
    let n = if deep { 1 } else { c.rng.range(1, 8) };
    let keys = gen_keys(&mut c.rng, n);
    let mut ver = gen_first(&mut c.rng);
    let base = ver;
    let mut top = 0u64;
    let mut raw: HashMap<KeyHash, Vec<(Ver, Option<V>)>> = HashMap::new();
    for _ in 0..if deep { 300 } else { c.rng.range(1, 25) } {
        let mut b = NodeBatch::default();
        let mut vals: BTreeMap<(u64, K), Option<V>> = BTreeMap::new();
        for _ in 0..c.rng.range(1, 5) {
            let dv = c.rng.below(3) as u64;
            let k = *c.rng.pick(&keys);
            let v = if c.rng.chance(1, 3) { None } else { Some(gen_value(&mut c.rng)) };
            vals.insert((ver + dv, k), v.clone());
            if c.rng.chance(1, 2) || v.is_none() {
                b.extend([], [((ver + dv, KeyHash(k)), v)]);
            } else {
                b.insert_value(ver + dv, KeyHash(k), v.unwrap());
            }
        }
        c.op(|| format!("write {vals:?}"));
        if c.rng.chance(1, 4) {
            let mut other = NodeBatch::default();
            other.merge(b.clone());
            chk!(other == b, "merge", "merging into an empty batch differs");
            b = other;
        }
        let refused = vals.iter().any(|((v, k), _)| model.get(k).and_then(|h| h.last()).map_or(false, |l| *v < l.0));
        if refused {
            // only single refused writes have a defined outcome; try one of them alone
            let ((v, k), x) = vals.iter().find(|((v, k), _)| model.get(k).and_then(|h| h.last()).map_or(false, |l| *v < l.0)).unwrap();
            let mut b1 = NodeBatch::default();
            b1.extend([], [((*v, KeyHash(*k)), x.clone())]);
            let r = lib("write_node_batch", || st.write_node_batch(&b1))?;
            chk!(r.is_err(), "old-write-accepted", "a write of {} at {v} below its last version is accepted", hx(k));
            let r = lib("put_value", || jmt::mock::put_value(&mut raw, Ver(*v), KeyHash(*k), x.clone()))?;
            chk!(r.is_err(), "old-write-accepted", "put_value below the last version is accepted");
            c.count("old_writes_refused", 1);
        } else {
            ok("write_node_batch", || st.write_node_batch(&b))?;
            for ((v, k), x) in vals {
                top = top.max(v);
                let h = model.entry(k).or_default();
                match h.last_mut() {
                    Some(l) if l.0 == v => l.1 = x.clone(),
                    _ => h.push((v, x.clone())),
                }
                ok("put_value", || jmt::mock::put_value(&mut raw, Ver(v), KeyHash(k), x))?;
            }
            c.count("batches_written", 1);
        }
        ver += c.rng.below(3) as u64;
        // compare everything
        let live = model.values().filter(|h| h.last().map_or(false, |l| l.1.is_some())).count();
        let len = lib("len", || st.len())?;
        chk!(len == live, "len", "len() is {len}, live keys {live}");
        let e = lib("is_empty", || st.is_empty())?;
        chk!(e == (live == 0), "is_empty", "is_empty() is {e}, live keys {live}");
        let v = lib("version", || st.version())?;
        chk!(v.0 == top, "version", "version() is {v}, highest written {top}");
        let hist: BTreeMap<K, Vec<(u64, Option<V>)>> =
            lib("value_history", || st.value_history())?.map(|(k, h)| (k.0, h.into_iter().map(|(v, x)| (v.0, x)).collect())).collect();
        chk!(hist == model, "history", "value_history() differs from the writes: {hist:?} / {model:?}");
        let rawm: BTreeMap<K, Vec<(u64, Option<V>)>> =
            raw.iter().map(|(k, h)| (k.0, h.iter().map(|(v, x)| (v.0, x.clone())).collect())).collect();
        chk!(rawm == model, "put_value", "put_value() built another history: {rawm:?} / {model:?}");
        for _ in 0..8 {
            let k = *c.rng.pick(&keys);
            let q = match c.rng.below(4) {
                0 => c.rng.below(4) as u64,
                1 => u64::MAX,
                2 if deep => base + c.rng.below((ver - base + 4) as usize) as u64,
                _ => (ver + 4).saturating_sub(c.rng.below(24) as u64),
            };
            let want = model.get(&k).and_then(|h| h.iter().rev().find(|x| x.0 <= q)).and_then(|x| x.1.clone());
            let a = ok("get_value_option", || st.get_value_option(Ver(q), KeyHash(k)))?;
            let b = ok("get", || VersionedDatabase::get(&st, Ver(q), KeyHash(k)))?;
            let g = lib("get_value", || st.get_value(Ver(q), KeyHash(k)))?.ok();
            chk!(a == want && b == want && g == want, "value", "value of {} at {q} is {a:?} / {b:?} / {g:?}, must be {want:?}", hx(&k));
            c.count("values_checked", 3);
        }
        c.print(live as u64 ^ top);
    }
    c.nontrivial = model.values().any(|h| h.len() > 1);
    Ok(())
}

/// A batch is a map of nodes and a map of values; a leaf can be put directly, once.
fn j16_batch(c: &mut Case) -> R {
    use jmt::db::VersionedDatabase;
    let n = c.rng.range(1, 10);
    let keys = gen_keys(&mut c.rng, n);
    let src = Arc::new(MockTreeStore::new(false));
    let t = new_tree::<MockTreeStore, Sha256>(src.clone(), true);
    let mut nodes: Vec<(NodeKey, Node)> = Vec::new();
    for ver in 0..c.rng.range(1, 4) as u64 {
        let set: Vec<_> = (0..c.rng.range(0, 6))
            .map(|_| (KeyHash(*c.rng.pick(&keys)), if c.rng.chance(1, 4) { None } else { Some(gen_value(&mut c.rng)) }))
            .collect();
        let (_, b) = ok("put_value_set", || t.put_value_set(set, ver))?;
        nodes.extend(b.node_batch.nodes().iter().map(|(k, n)| (k.clone(), n.clone())));
        ok("apply", || src.write_tree_update_batch(b))?;
    }
    let mut b = NodeBatch::default();
    let mut mn: BTreeMap<NodeKey, Node> = BTreeMap::new();
    let mut mv: BTreeMap<(u64, KeyHash), Option<V>> = BTreeMap::new();
    for _ in 0..c.rng.range(1, 20) {
        let (nk, _) = c.rng.pick(&nodes).clone();
        let node = c.rng.pick(&nodes).1.clone();
        let vk = (c.rng.below(4) as u64, KeyHash(*c.rng.pick(&keys)));
        match c.rng.below(8) {
            0 => {
                c.op(|| "clear".into());
                lib("clear", || b.clear())?;
                mn.clear();
                mv.clear();
            }
            1 | 2 => {
                c.op(|| format!("insert_node {nk:?}"));
                let old = lib("insert_node", || b.insert_node(nk.clone(), node.clone()))?;
                let want = mn.insert(nk.clone(), node);
                chk!(old == want, "batch-insert", "insert_node returns {old:?}, must return {want:?}");
            }
            3 | 4 => {
                let v = gen_value(&mut c.rng);
                c.op(|| format!("insert_value {vk:?}"));
                lib("insert_value", || b.insert_value(vk.0, vk.1, v.clone()))?;
                mv.insert(vk, Some(v));
            }
            5 => {
                c.op(|| "merge".into());
                let mut o = NodeBatch::default();
                if c.rng.chance(1, 2) {
                    o.insert_node(nk.clone(), node.clone());
                    mn.insert(nk.clone(), node.clone());
                }
                if c.rng.chance(1, 2) {
                    o.extend([], [(vk, None)]);
                    mv.insert(vk, None);
                }
                lib("merge", || b.merge(o))?;
            }
            _ => {
                c.op(|| "extend".into());
                let (x, y) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
                if x {
                    mn.insert(nk.clone(), node.clone());
                }
                if y {
                    mv.insert(vk, None);
                }
                lib("extend", || b.extend(x.then(|| (nk.clone(), node.clone())), y.then_some((vk, None))))?;
            }
        }
        chk!(b.nodes() == &mn, "batch-nodes", "the batch's nodes differ from those put in");
        chk!(b.values() == &mv, "batch-values", "the batch's values differ from those put in: {:?} / {mv:?}", b.values());
        let e = lib("is_empty", || b.is_empty())?;
        chk!(e == (mn.is_empty() && mv.is_empty()), "batch-empty", "is_empty() is {e} with {} nodes and {} values", mn.len(), mv.len());
        let q = c.rng.pick(&nodes).0.clone();
        let g = lib("get_node", || b.get_node(&q).cloned())?;
        chk!(g == mn.get(&q).cloned(), "batch-get", "get_node({q:?}) gives {g:?}");
        c.count("batch_operations", 1);
    }
    let st = MockTreeStore::default();
    let mut put: BTreeMap<NodeKey, Node> = BTreeMap::new();
    let mut vals: BTreeMap<KeyHash, (u64, V)> = BTreeMap::new();
    // a store that forbids overwriting refuses to replace a node, one that allows it does replace it
    for allow in [false, true] {
        let st = if allow { MockTreeStore::new(true) } else if c.rng.chance(1, 2) { MockTreeStore::new(false) } else { MockTreeStore::default() };
        let mut one = NodeBatch::default();
        let (nk, n1) = c.rng.pick(&nodes).clone();
        one.insert_node(nk.clone(), n1);
        ok("write_node_batch", || st.write_node_batch(&one))?;
        let mut two = NodeBatch::default();
        let n2 = c.rng.pick(&nodes).1.clone();
        two.insert_node(nk.clone(), n2.clone());
        match lib_catch(|| st.write_node_batch(&two)) {
            Ok(Ok(())) => {
                chk!(allow, "overwritten", "a store that forbids overwriting accepts a second node under {nk:?}");
                let g = ok("get_node_option", || st.get_node_option(&nk))?;
                chk!(g == Some(n2), "overwrite-lost", "the overwritten node {nk:?} reads as {g:?}");
            }
            _ => chk!(!allow, "overwrite-refused", "a store that allows overwriting refuses a second node under {nk:?}"),
        }
        c.count("overwrites_tried", 1);
    }
    for (nk, n) in &nodes {
        let Node::Leaf(l) = n else { continue };
        // only put_leaf leaves whose value is the key's newest
        if vals.get(&l.key_hash()).map_or(false, |x| x.0 > nk.version()) {
            continue;
        }
        let v = gen_value(&mut c.rng);
        ok("put_leaf", || st.put_leaf(nk.clone(), l.clone(), v.clone()))?;
        put.insert(nk.clone(), n.clone());
        vals.insert(l.key_hash(), (nk.version(), v.clone()));
        let again = lib("put_leaf", || st.put_leaf(nk.clone(), l.clone(), vec![1]))?;
        chk!(again.is_err(), "leaf-put-twice", "a second leaf is accepted under {nk:?}");
        let g = ok("get_node_option", || st.get_node_option(nk))?;
        chk!(g.as_ref() == Some(n), "put-leaf-node", "the leaf put under {nk:?} reads as {g:?}");
        let g = ok("get_value", || st.get_value(jmt::db::Version(nk.version()), l.key_hash()))?;
        chk!(g == v, "put-leaf-value", "the value put with {nk:?} reads as {g:?}");
        c.count("leaves_put", 1);
    }
    let all: BTreeMap<NodeKey, Node> = lib("nodes", || st.nodes())?.collect();
    chk!(all == put, "put-leaf-nodes", "nodes() gives {} nodes of {}", all.len(), put.len());
    let n = lib("len", || st.len())?;
    chk!(n == vals.len(), "put-leaf-len", "len() is {n}, keys put {}", vals.len());
    c.print(nodes.len() as u64);
    Ok(())
}

fn j16_tree<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let d = lib("default", || JellyfishMerkleTree::<S, H>::default())?;
    chk!(d.len() == 0 && d.is_empty(), "default-tree", "a default tree has {} keys", d.len());
    let mut w = World::<S, H>::new(c, st);
    for _ in 0..w.steps(c) {
        w.step(c)?;
        let n = lib("tree.len", || w.tree.len())?;
        chk!(n == w.cur.len(), "tree-len", "len() is {n}, live keys {}", w.cur.len());
        let e = lib("tree.is_empty", || w.tree.is_empty())?;
        chk!(e == w.cur.is_empty(), "tree-is_empty", "is_empty() is {e}, live keys {}", w.cur.len());
        let v = lib("tree.version", || w.tree.version())?;
        chk!(v == w.last_write, "tree-version", "version() is {v}, last written version {}", w.last_write);
        let k = probe_key(&mut c.rng, &w.keys);
        let vi = w.pick_version(&mut c.rng);
        let want = w.snaps[vi].map.get(&k).cloned();
        let ver = jmt::db::Version(w.first + vi as u64);
        let a = ok("get_value_option", || w.store.get_value_option(ver, KeyHash(k)))?;
        chk!(a == want, "value", "value of {} at {ver} is {a:?}, must be {want:?}", hx(&k));
        c.count("tree_sizes_checked", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- J18

/// Every update writes only the paths of the keys it changes; the rest is shared with the version before.
pub fn j18(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    for _ in 0..w.steps(c) {
        let sets = w.gen_group(c);
        let batch = w.batch_ok(&sets) && c.rng.chance(1, 2);
        let v0 = w.next_version();
        let mut before = w.cur.clone();
        let (roots, b) = w.compute(c, &sets, batch)?;
        log_sets(c, v0, &sets, batch);
        let new: Vec<(NodeKey, Node)> = b.node_batch.nodes().iter().map(|(k, n)| (k.clone(), n.clone())).collect();
        let vals = b.node_batch.values().clone();
        let st = w.store.clone();
        ok("apply", move || st.apply(b))?;
        w.record(&sets, &roots)?;
        // the value log: the keys of each set, with their last operation
        let mut want: BTreeMap<(u64, KeyHash), Option<V>> = BTreeMap::new();
        for (i, s) in sets.iter().enumerate() {
            for (k, v) in s {
                want.insert((v0 + i as u64, KeyHash(*k)), v.clone());
            }
        }
        chk!(vals == want, "value-entries", "the update writes the values {vals:?}, must write {want:?}");
        let path = |k: &K, ver: u64| -> R<Vec<NodeKey>> {
            w.store.start_log();
            let r = lib("get_with_proof", || w.tree.get_with_proof(KeyHash(*k), ver).map(|_| ()))?;
            let l = w.store.take_log();
            chk!(r.is_ok(), "get_with_proof", "get_with_proof({}) at {ver} fails: {r:?}", hx(k));
            Ok(l)
        };
        for (i, s) in sets.iter().enumerate() {
            let ver = v0 + i as u64;
            // keys that may have changed: written, or deleted while present (maybe by this same set)
            let written: BTreeSet<K> = s.iter().filter(|x| x.1.is_some()).map(|x| x.0).collect();
            let eff: BTreeSet<K> = s.iter().map(|x| x.0).filter(|k| written.contains(k) || before.contains_key(k)).collect();
            apply_set(&mut before, s);
            let mut on_paths: BTreeSet<NodeKey> = path(&[0; 32], ver)?.into_iter().take(1).collect();
            for k in &eff {
                on_paths.extend(path(k, ver)?);
            }
            let mut n = 0usize;
            for (nk, node) in new.iter().filter(|x| x.0.version() == ver) {
                n += 1;
                if on_paths.contains(nk) {
                    continue;
                }
                match node {
                    Node::Leaf(l) => {
                        // a leaf next to a changed path, moved there by a split or a collapse
                        let p = path(&l.key_hash().0, ver)?;
                        let at = p.iter().position(|x| x == nk);
                        chk!(
                            at.map_or(false, |a| a > 0 && on_paths.contains(&p[a - 1])),
                            "unrelated-leaf",
                            "version {ver} rewrites the leaf {nk:?} of {}, far from every changed key",
                            hx(&l.key_hash().0)
                        );
                        c.count("leaves_moved", 1);
                    }
                    _ => vio!("unrelated-node", "version {ver} writes the node {nk:?}, on the path of no changed key"),
                }
            }
            // 64 nibbles below the root, and one moved neighbour
            chk!(n <= 1 + eff.len() * 66, "too-many-nodes", "version {ver} writes {n} nodes for {} changed keys", eff.len());
            if eff.is_empty() {
                chk!(n == 1, "no-change-writes", "version {ver} changes nothing and writes {n} nodes");
                c.count("versions_without_change", 1);
            }
            let live = w.store.node_count() as u64;
            c.count("nodes_written", n as u64);
            c.count("nodes_in_store", live);
            c.count("versions_checked", 1);
        }
        let r = w.snaps.last().unwrap().want_root;
        c.print_bytes(&r);
        c.nontrivial |= w.snaps.len() >= 2 && w.cur.len() >= 2;
    }
    Ok(())
}

// ---------------------------------------------------------------- J19

/// The nibbles that lead from the root to a node, out of its stored form.
fn place(nk: &NodeKey) -> Vec<u8> {
    let b = borsh::to_vec(nk).expect("node key encodes");
    let n = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
    (0..n).map(|i| if i % 2 == 0 { b[20 + i / 2] >> 4 } else { b[20 + i / 2] & 15 }).collect()
}

fn key_nibbles(k: &K) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

/// The nodes a version consists of, by place.
fn nodes_of(w: &World<Obs, Sha256>, ver: u64) -> R<Vec<(NodeKey, Vec<u8>)>> {
    w.store.start_log();
    ok("get_root_hash", || w.tree.get_root_hash(ver))?;
    let it = ok("iter-new", || JellyfishMerkleIterator::new(w.store.clone(), ver, KeyHash([0; 32])))?;
    let (_, err) = lib("iter.next", || drain(it, usize::MAX - 1))??;
    chk!(err.is_none(), "iter-err", "iteration fails: {err:?}");
    let s: BTreeSet<NodeKey> = w.store.take_log().into_iter().collect();
    Ok(s.into_iter().map(|k| (k.clone(), place(&k))).collect())
}

pub fn j19(c: &mut Case) -> R {
    let mut w = World::<Obs, Sha256>::new(c, Obs::default());
    w.run(c)?;
    let stored = w.store.dump().0;
    for _ in 0..12 {
        let mut vi = w.pick_version(&mut c.rng);
        let k = probe_key(&mut c.rng, &w.keys);
        let nth = |c: &mut Case, m: &Map| m.keys().nth(c.rng.below(m.len())).copied();
        let live = if w.snaps[vi].map.is_empty() { None } else { nth(c, &w.snaps[vi].map) };
        let ver = w.first + vi as u64;
        // the keys whose paths the call may follow, and the start of the range it may read
        let mut involved: Vec<K> = vec![k];
        let mut from: Option<K> = None;
        let op = match (c.rng.below(16), live) {
            (0, _) => Op::Get(k, ver),
            (1, _) => Op::Contains(k, ver),
            (2 | 3, _) => Op::Proof(k, ver),
            (4, Some(l)) => {
                involved = vec![l];
                Op::GetProof(l, ver)
            }
            (5 | 6, _) => {
                let m = &w.snaps[vi].map;
                involved.extend(m.range(..k).next_back().map(|x| *x.0));
                involved.extend(m.range(k..).next().map(|x| *x.0));
                Op::Excl(k, ver)
            }
            (7, Some(l)) => {
                involved = vec![l];
                Op::Range(l, ver)
            }
            (8, _) => {
                from = Some(k);
                Op::Iter(k, ver)
            }
            (9, Some(_)) => {
                let i = c.rng.below(w.snaps[vi].map.len());
                let k = *w.snaps[vi].map.keys().nth(i).unwrap();
                involved = vec![k];
                from = Some(k);
                Op::IterIdx(i, ver)
            }
            (10, _) => {
                from = Some([0; 32]);
                Op::TrieIter(ver)
            }
            (11, _) => {
                involved = vec![];
                match c.rng.below(3) {
                    0 => Op::Root(ver),
                    1 => Op::RootOpt(ver),
                    _ => Op::Count(ver),
                }
            }
            _ => {
                vi = w.snaps.len() - 1;
                let sets = w.gen_group(c);
                let b = w.batch_ok(&sets) && c.rng.chance(1, 2);
                involved = sets.iter().flatten().map(|x| x.0).collect();
                Op::Put(sets, w.next_version(), b)
            }
        };
        c.op(|| format!("operation on a store reduced to what it needs: {op:?}"));
        let healthy = match lib("op", || run_op(&w, &op))? {
            Ok(x) => x,
            Err(_) => continue, // exclusion proof on the empty tree, range proof of an absent key
        };
        // Needed are the root, the nodes on the paths, and leaves directly below (a leaf beside an
        // absent key proves the absence, and moves up when a deletion leaves it alone); for a range
        // also what is not entirely before its start.
        let paths: Vec<Vec<u8>> = involved.iter().map(key_nibbles).collect();
        let start = from.as_ref().map(key_nibbles);
        let mut needed = HashSet::new();
        let mut spared = 0u64;
        for (nk, p) in nodes_of(&w, w.first + vi as u64)? {
            let up = &p[..p.len().saturating_sub(1)];
            let near = p.is_empty()
                || paths.iter().any(|x| x.starts_with(&p))
                || matches!(stored.get(&nk), Some(Node::Leaf(_))) && paths.iter().any(|x| x.starts_with(up));
            let right = start.as_ref().map_or(false, |s| p[..] >= s[..p.len()]);
            if near || right {
                needed.insert(nk);
            } else {
                spared += 1;
            }
        }
        let part = c.rng.chance(1, 3);
        let lost: HashSet<NodeKey> =
            stored.keys().filter(|x| !needed.contains(*x) && !(part && c.rng.chance(1, 2))).cloned().collect();
        let keep: BTreeSet<K> = involved.iter().copied().collect();
        let lost_vals: HashSet<K> =
            w.keys.iter().filter(|x| !keep.contains(*x) && from.map_or(true, |f| **x < f)).copied().collect();
        c.count("nodes_lost", lost.len() as u64);
        c.count("nodes_lost_of_the_version", spared);
        {
            let mut i = w.store.lock();
            i.lost = lost;
            i.lost_vals = lost_vals;
        }
        let got = lib("op-on-reduced-store", || run_op(&w, &op))?;
        {
            let mut i = w.store.lock();
            i.lost.clear();
            i.lost_vals.clear();
        }
        match got {
            Ok(g) => chk!(g == healthy, "other-answer", "{op:?} answers {:?} when all it does not need is lost, must be {:?}", trunc(&g.0), trunc(&healthy.0)),
            Err(e) => vio!("needs-more", "{op:?} fails when only nodes are lost that are neither on the paths of its keys nor beside them: {e}"),
        }
        c.count("answers_on_reduced_stores", 1);
        if matches!(op, Op::Put(..)) {
            c.count("updates_on_reduced_stores", 1);
        }
    }
    Ok(())
}
