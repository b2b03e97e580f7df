//! Monitors for the Patricia trie (P01-P08, P10, P11).
use crate::core::*;
use crate::keccak::keccak256;
use crate::mpt::{self, Map};
use crate::pcommon::*;
use crate::{chk, vio};
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn with_db(c: &mut Case, a: fn(&mut Case, bool) -> R, b: fn(&mut Case, bool) -> R) -> R {
    let light = c.rng.chance(1, 2);
    if c.rng.chance(1, 2) {
        a(c, light)
    } else {
        b(c, light)
    }
}

// ---------------------------------------------------------------- P01

pub fn p01(c: &mut Case) -> R {
    with_db(c, p01_on::<FDb>, p01_on::<MemoryDB>)
}
fn p01_on<D: PDb>(c: &mut Case, light: bool) -> R {
    let mut w = PWorld::<D>::new(c, light);
    let n = w.steps(c);
    for _ in 0..n {
        w.step(c)?;
        let full = c.rng.chance(1, 8);
        check_reads(c, &w.trie, &w.model, &w.keys, full)?;
        let (n, e) = (lib("len", || w.trie.len())?, lib("is_empty", || w.trie.is_empty())?);
        let d = w.db.dump().len();
        chk!(n == d && e == (d == 0), "len", "len gives {n}, is_empty {e}, with {d} nodes stored");
    }
    check_reads(c, &w.trie, &w.model, &w.keys, true)?;
    w.commit(c)?;
    check_reads(c, &w.trie, &w.model, &w.keys, true)?;
    w.reopen(c);
    check_reads(c, &w.trie, &w.model, &w.keys, true)
}

// ---------------------------------------------------------------- P02

pub fn p02(c: &mut Case) -> R {
    with_db(c, p02_on::<FDb>, p02_on::<MemoryDB>)
}
fn p02_on<D: PDb>(c: &mut Case, light: bool) -> R {
    let mut w = PWorld::<D>::new(c, light);
    let n = w.steps(c);
    for i in 0..n {
        let before = w.roots.len();
        w.step(c)?;
        if i + 1 == n {
            w.commit(c)?;
        }
        if w.roots.len() > before {
            let want = mpt::root(&w.model);
            chk!(w.root.0 == want, "root", "committed root is {}, must be {} ({} pairs)", hx(&w.root.0), hx(&want), w.model.len());
            let again = ok("commit", || w.trie.commit())?;
            chk!(again == w.root, "root-again", "committing without changes gives {}, was {}", hx(&again.0), hx(&w.root.0));
            c.count("roots_checked", 1);
            if w.model.is_empty() {
                c.count("empty_roots", 1);
            }
        }
    }
    // the same contents put into a fresh trie in another order
    let mut pairs: Vec<_> = w.model.iter().collect();
    c.rng.shuffle(&mut pairs);
    let mut t = InnerTrie::new(Arc::new(MemoryDB::new(light)));
    for (k, v) in &pairs {
        ok("insert", || t.insert(k, v))?;
    }
    let h = ok("root_hash", || t.root_hash())?;
    chk!(h == w.root, "root-order", "the same pairs in another order give another root");
    Ok(())
}

// ---------------------------------------------------------------- P03

pub fn p03(c: &mut Case) -> R {
    if c.rng.chance(1, 25) {
        return crate::conc::shared_tries(c);
    }
    with_db(c, p03_on::<FDb>, p03_on::<MemoryDB>)
}
fn p03_on<D: PDb>(c: &mut Case, light: bool) -> R {
    let mut w = PWorld::<D>::new(c, light);
    let n = w.steps(c) + 5;
    for _ in 0..n {
        w.step(c)?;
        if light {
            if !w.dirty && !w.roots.is_empty() && c.rng.chance(1, 3) {
                let mut t = InnerTrie::new(w.db.clone()).at_root(w.root);
                check_open(c, &mut t, w.root, &w.model, &w.keys)?;
                c.count("latest_reopened", 1);
            }
        } else if !w.roots.is_empty() && c.rng.chance(1, 10) {
            // continue from an older root; what is pending may be kept aside in a clone
            let (h, m) = c.rng.pick(&w.roots).clone();
            c.op(|| format!("fork from {}", hx(&h.0)));
            w.trie = w.trie.at_root(h);
            w.model = m.clone();
            w.committed = m;
            w.root = h;
            w.dirty = false;
            c.count("forks", 1);
        } else if c.rng.chance(1, 20) {
            // a clone goes its own way on the same storage
            let mut t = w.trie.clone();
            let mut m = w.model.clone();
            for _ in 0..c.rng.range(1, 5) {
                let id = c.rng.below(w.keys.len());
                let k = w.keys[id].clone();
                if c.rng.chance(1, 3) {
                    ok("remove", || t.remove(&k))?;
                    m.remove(&k);
                } else {
                    let v = gen_val(&mut c.rng, id, false);
                    ok("insert", || t.insert(&k, &v))?;
                    m.insert(k, v);
                }
            }
            let h = ok("commit", || t.commit())?;
            w.roots.push((h, m));
            c.count("clones", 1);
        }
    }
    w.commit(c)?;
    let roots = if light { w.roots.split_off(w.roots.len() - 1) } else { std::mem::take(&mut w.roots) };
    for (h, m) in &roots {
        let mut t = if c.rng.chance(1, 2) { w.trie.at_root(*h) } else { InnerTrie::new(w.db.clone()).at_root(*h) };
        check_open(c, &mut t, *h, m, &w.keys)?;
        c.count("roots_reopened", 1);
    }
    Ok(())
}

fn check_open<D: PDb>(c: &mut Case, t: &mut InnerTrie<D>, h: H256, m: &Map, keys: &[Vec<u8>]) -> R {
    check_reads(c, t, m, keys, true)?;
    check_iter(c, t, m)?;
    for _ in 0..3 {
        let k = c.rng.pick(keys).clone();
        check_proof(c, t, h, m, &k)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P04

pub fn p04(c: &mut Case) -> R {
    with_db(c, p04_on::<FDb>, p04_on::<MemoryDB>)
}
fn p04_on<D: PDb>(c: &mut Case, light: bool) -> R {
    let mut w = PWorld::<D>::new(c, light);
    let n = w.steps(c);
    for i in 0..n + 1 {
        if i > 0 {
            w.step(c)?;
        }
        if c.rng.chance(2, 3) && i != 0 && i != n {
            continue;
        }
        if w.dirty {
            c.count("states_with_pending_changes", 1);
        }
        if w.model.is_empty() {
            c.count("empty_tries", 1);
        }
        // the root of the contents, which a later commit must agree with
        let root = H256(mpt::root(&w.model));
        let mut ks: Vec<Vec<u8>> = (0..4).map(|_| c.rng.pick(&w.keys).clone()).collect();
        ks.extend(probes(&mut c.rng, &w.keys, 3));
        for k in &ks {
            c.op(|| format!("prove {}", hx(k)));
            check_proof(c, &mut w.trie, root, &w.model, k)?;
        }
        check_reads(c, &w.trie, &w.model, &w.keys, false)?;
        if c.rng.chance(1, 3) {
            let ps: Vec<_> = ks.iter().map(|k| lib("get_proof", || w.trie.get_proof(k))).collect::<R<Vec<_>>>()?;
            let h = w.commit(c)?;
            chk!(h == root, "root-after-proof", "after proving, the committed root is {}, must be {}", hx(&h.0), hx(&root.0));
            // proofs taken before the commit hold for the committed root
            for (k, p) in ks.iter().zip(ps) {
                let got = ok("verify_proof", || w.trie.verify_proof(h, k, p.unwrap_or_default()))?;
                chk!(got.as_ref() == w.model.get(k), "proof-before-commit", "a proof of {} taken before the commit gives {:?}", hx(k), got);
                check_proof(c, &mut w.trie, root, &w.model, k)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P05

pub fn p05(c: &mut Case) -> R {
    // a genuine archive of several roots
    let mut w = PWorld::<FDb>::new(c, false);
    let n = w.steps(c);
    for _ in 0..n {
        w.step(c)?;
    }
    w.commit(c)?;
    let v = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    let pool: Vec<Vec<u8>> = w.db.dump().into_values().collect();
    for _ in 0..12 {
        let (h, m) = c.rng.pick(&w.roots).clone();
        let k = if c.rng.chance(2, 3) { c.rng.pick(&w.keys).clone() } else { probes(&mut c.rng, &w.keys, 1).pop().unwrap() };
        let mut t = w.trie.at_root(h);
        let base = ok("get_proof", || t.get_proof(&k))?;
        let mut p = base.clone();
        let mut k2 = k.clone();
        for _ in 0..c.rng.range(1, 2) {
            match c.rng.below(9) {
                0 if !p.is_empty() => {
                    let i = c.rng.below(p.len());
                    p.remove(i);
                }
                1 | 2 if !p.is_empty() => {
                    let i = c.rng.below(p.len());
                    mutate_bytes(&mut c.rng, &mut p[i]);
                }
                3 => c.rng.shuffle(&mut p),
                4 => {
                    let x = c.rng.pick(&pool).clone();
                    p.push(x);
                }
                5 if !p.is_empty() => {
                    let i = c.rng.below(p.len());
                    p[i] = c.rng.pick(&pool).clone();
                }
                6 => {
                    // the proof of another key
                    k2 = c.rng.pick(&w.keys).clone();
                }
                7 => {
                    // a proof under another root
                    let (h2, _) = c.rng.pick(&w.roots).clone();
                    let mut t = w.trie.at_root(h2);
                    p = ok("get_proof", || t.get_proof(&k))?;
                }
                _ => {
                    let mut x = hostile(&mut c.rng, 0, &pool);
                    if c.rng.chance(1, 3) {
                        mutate_bytes(&mut c.rng, &mut x);
                    }
                    let at = c.rng.range(0, p.len());
                    p.insert(at, x);
                }
            }
        }
        judge(c, &v, &h, &m, &k2, &p)?;
        // and the claim about the wrong root
        let mut h2 = h;
        h2.0[c.rng.below(32)] ^= 1 << c.rng.below(8);
        let r = lib("verify_proof", || v.verify_proof(h2, &k, base))?;
        chk!(r.is_err(), "wrong-root", "a proof of {} is accepted against a root it does not belong to: {:?}", hx(&k), r);
        c.count("forged_proofs", 2);
    }
    // proofs built by an attacker who also picks the root: no claim to check, but no crash
    for _ in 0..6 {
        let mut nodes: Vec<Vec<u8>> = vec![];
        let chain = match c.rng.below(12) {
            0 => c.rng.range(100, 400),
            _ => c.rng.range(1, 6),
        };
        let shape = c.rng.below(4);
        let mut below = pool.clone();
        for _ in 0..chain {
            let mut x = match shape {
                // a chain linked by hash, bottom up
                0 => wrap(&mut c.rng, nodes.last()),
                _ => hostile(&mut c.rng, 0, &below),
            };
            if c.rng.chance(1, 6) {
                mutate_bytes(&mut c.rng, &mut x);
            }
            below = vec![x.clone()];
            nodes.push(x);
        }
        if c.rng.chance(1, 600) {
            // an endless indirection, or extensions of nothing
            let ext = c.rng.chance(1, 2);
            nodes = vec![mpt::rlp_str(&c.rng.b32())];
            for _ in 0..60_000 {
                let h = mpt::rlp_str(&keccak256(nodes.last().unwrap()));
                nodes.push(if ext { mpt::rlp_list(&[mpt::rlp_str(&[0x00]), h]) } else { h });
            }
            c.count("very_long_chains", 1);
        }
        let top = H256(keccak256(nodes.last().unwrap()));
        let mut ks = probes(&mut c.rng, &w.keys, 3);
        let l = c.rng.range(0, 40);
        ks.push(vec![*c.rng.pick(&[0u8, 0x11, 0xff]); l]);
        c.op(|| format!("attacker root {} over:", hx(&top.0)));
        for x in nodes.iter().take(50) {
            c.op(|| format!("  {}", hx(x)));
        }
        for k in &ks {
            let r = lib("verify_proof", || v.verify_proof(top, k, nodes.clone()))?;
            match (r, mpt::verify(&top.0, k, &nodes)) {
                (Ok(_), Some(_)) => c.count("attacker_roots_accepted", 1),
                (Ok(_), None) => c.count("attacker_roots_lenient", 1),
                (Err(_), _) => c.count("attacker_roots_refused", 1),
            }
        }
        // the same nodes as lost-and-found storage of a trie: every read and write ends without a crash
        let db = FDb::new(c.rng.chance(1, 2));
        for x in &nodes {
            db.st().map.insert(keccak256(x).to_vec(), x.clone());
        }
        let mut t = InnerTrie::new(Arc::new(db)).at_root(top);
        for k in &ks {
            let _ = lib("hostile get", || t.get(k))?;
            let _ = lib("hostile contains", || t.contains(k))?;
            let _ = lib("hostile get_proof", || t.get_proof(k))?;
        }
        // (nodes shared by many parents make a trie whose walk never ends)
        if nodes.len() < 8 {
            let _ = lib("hostile iter", || t.iter().take(500).count())?;
        }
        for k in &ks {
            if c.rng.chance(1, 2) {
                let _ = lib("hostile insert", || t.insert(k, b"xyz"))?;
            } else {
                let _ = lib("hostile remove", || t.remove(k))?;
            }
        }
        let _ = lib("hostile commit", || t.commit())?;
        c.count("hostile_storages", 1);
    }
    Ok(())
}

fn judge(c: &mut Case, v: &InnerTrie<MemoryDB>, h: &H256, m: &Map, k: &[u8], p: &[Vec<u8>]) -> R {
    c.op(|| format!("claim about {} under {}, {} nodes", hx(k), hx(&h.0), p.len()));
    for x in p {
        c.op(|| format!("  {}", hx(x)));
        c.print_bytes(x);
    }
    let r = lib("verify_proof", || v.verify_proof(*h, k, p.to_vec()))?;
    match (&r, mpt::verify(&h.0, k, p)) {
        (Ok(x), _) => {
            chk!(x.as_ref() == m.get(k), "forged", "a doctored proof makes {} {:?} under root {}, which holds {:?}", hx(k), x.as_ref().map(|x| hx(x)), hx(&h.0), m.get(k).map(|x| hx(x)));
            c.count("true_claims_accepted", 1);
        }
        (Err(_), Some(_)) => vio!("complete-refused", "a proof of {} that holds all its nodes is refused", hx(k)),
        (Err(_), None) => c.count("claims_refused", 1),
    }
    Ok(())
}

fn mutate_bytes(r: &mut Rng, x: &mut Vec<u8>) {
    match r.below(6) {
        0 if !x.is_empty() => {
            let i = r.below(x.len());
            x[i] ^= 1 << r.below(8);
        }
        1 => {
            x.pop();
        }
        2 => x.push(r.byte()),
        3 if !x.is_empty() => {
            let i = r.below(x.len());
            x[i] = *r.pick(&[0u8, 0x7f, 0x80, 0x81, 0xa0, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff]);
        }
        4 => x.clear(),
        _ => {
            let i = r.range(0, x.len());
            x.insert(i, r.byte());
        }
    }
}

/// A node over the one below, of every kind, linked by hash or embedded regardless of its size.
fn wrap(r: &mut Rng, below: Option<&Vec<u8>>) -> Vec<u8> {
    let child = match below {
        None => match r.below(3) {
            0 => vec![0x80],
            1 => mpt::rlp_str(&r.bytes(32)),
            _ => mpt::rlp_list(&[mpt::rlp_str(&[0x20]), mpt::rlp_str(b"v")]),
        },
        Some(b) if r.chance(1, 8) => b.clone(),
        Some(b) => mpt::rlp_str(&keccak256(b)),
    };
    match r.below(6) {
        // an indirection that is no node
        0 | 1 => child,
        // an extension, of an empty path at times
        2 | 3 => {
            let n = r.below(3);
            let path: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 1, 15])).collect();
            mpt::rlp_list(&[mpt::rlp_str(&mpt::hp(&path, false)), child])
        }
        _ => {
            let mut items = vec![vec![0x80]; 17];
            for i in [0usize, 1, 15] {
                items[i] = child.clone();
            }
            if r.chance(1, 4) {
                items[16] = mpt::rlp_str(&r.bytes(3));
            }
            mpt::rlp_list(&items)
        }
    }
}

/// Something like a node, with every liberty taken.
fn hostile(r: &mut Rng, depth: usize, pool: &[Vec<u8>]) -> Vec<u8> {
    let item = |r: &mut Rng| -> Vec<u8> {
        match r.below(8) {
            0 => vec![0x80],
            1 => mpt::rlp_str(&keccak256(r.pick(pool))),
            2 => mpt::rlp_str(&r.bytes(32)),
            3 => {
                let l = r.below(40);
                mpt::rlp_str(&r.bytes(l))
            }
            4 => {
                let l = r.below(4);
                r.bytes(l)
            }
            5 => vec![0xc0],
            _ if depth < 6 => hostile(r, depth + 1, pool),
            _ => vec![0x80],
        }
    };
    match r.below(10) {
        0 => {
            let l = r.below(40);
            r.bytes(l)
        }
        1 => r.pick(pool).clone(),
        2 | 3 => {
            let mut it: Vec<Vec<u8>> = (0..16).map(|_| if r.chance(1, 3) { item(r) } else { vec![0x80] }).collect();
            it.push(if r.chance(1, 2) { vec![0x80] } else { item(r) });
            mpt::rlp_list(&it)
        }
        4 => {
            // deep embedding
            let mut x = vec![0x80];
            for _ in 0..*r.pick(&[3usize, 30, 300, 3000]) {
                x = mpt::rlp_list(&[mpt::rlp_str(&[if r.chance(1, 2) { 0x00 } else { 0x11 }]), x]);
                if x.len() > 100_000 {
                    break;
                }
            }
            x
        }
        5 => {
            let n = *r.pick(&[0usize, 1, 3, 16, 18]);
            let it: Vec<Vec<u8>> = (0..n).map(|_| item(r)).collect();
            mpt::rlp_list(&it)
        }
        _ => {
            let path = match r.below(4) {
                0 => vec![],
                1 => {
                    let l = r.range(1, 4);
                    r.bytes(l)
                }
                2 => {
                    let n = r.below(4);
                    let p: Vec<u8> = (0..n).map(|_| r.below(16) as u8).collect();
                    mpt::hp(&p, r.chance(1, 2))
                }
                _ => vec![*r.pick(&[0x00u8, 0x0f, 0x10, 0x20, 0x2f, 0x30, 0x40, 0x80, 0xf0])],
            };
            let x = item(r);
            mpt::rlp_list(&[mpt::rlp_str(&path), x])
        }
    }
}

// ---------------------------------------------------------------- P06

pub fn p06(c: &mut Case) -> R {
    with_db(c, p06_on::<FDb>, p06_on::<MemoryDB>)
}
fn p06_on<D: PDb>(c: &mut Case, light: bool) -> R {
    let mut w = PWorld::<D>::new(c, light);
    check_iter(c, &w.trie, &w.model)?;
    let n = w.steps(c);
    for i in 0..n {
        w.step(c)?;
        let big = w.keys.len() > 60;
        if c.rng.chance(1, if big { 12 } else { 2 }) || i + 1 == n {
            if w.dirty {
                c.count("states_with_pending_changes", 1);
            }
            check_iter(c, &w.trie, &w.model)?;
        }
    }
    w.commit(c)?;
    check_iter(c, &w.trie, &w.model)?;
    w.reopen(c);
    check_iter(c, &w.trie, &w.model)
}

// ---------------------------------------------------------------- P07

pub fn p07(c: &mut Case) -> R {
    let light = c.rng.chance(1, 2);
    let mut w = PWorld::<FDb>::new(c, light);
    let n = w.steps(c) + 4;
    for _ in 0..n {
        if c.rng.chance(1, 3) {
            w.step(c)?;
            continue;
        }
        // a fault, then one call
        let mut lost = 0;
        if c.rng.chance(1, 3) {
            let nodes: Vec<Vec<u8>> = w.db.st().map.keys().cloned().collect();
            if !nodes.is_empty() {
                let k = if c.rng.chance(1, 4) { nodes.len() } else { c.rng.range(1, 3) };
                for _ in 0..k {
                    let x = c.rng.pick(&nodes).clone();
                    w.db.st().lost.insert(x);
                    lost += 1;
                }
                if c.rng.chance(1, 2) {
                    w.db.st().lost.insert(w.root.0.to_vec());
                }
            }
        }
        if lost == 0 || c.rng.chance(1, 4) {
            let (at, len) = match c.rng.below(5) {
                0 => (0, u64::MAX),
                1 => (c.rng.below(30) as u64, u64::MAX),
                2 => (c.rng.below(3) as u64, 1),
                _ => (c.rng.below(25) as u64, 1 + c.rng.below(3) as u64),
            };
            w.db.plan(at, len);
            c.op(|| format!("database operations {at}.. fail ({len}), {lost} nodes lost"));
        } else {
            w.db.plan(u64::MAX, 0);
            c.op(|| format!("{lost} nodes lost"));
        }
        let tainted = |w: &PWorld<FDb>| {
            let s = w.db.st();
            s.failed + s.missed
        };
        let mut errs = 0u64;
        let mut broken = false;
        let calls = c.rng.range(1, 3);
        for _ in 0..calls {
            let id = c.rng.below(w.keys.len());
            let k = if c.rng.chance(1, 5) { probes(&mut c.rng, &w.keys, 1).pop().unwrap() } else { w.keys[id].clone() };
            let before = tainted(&w);
            macro_rules! judge_err {
                ($what:expr, $e:expr) => {{
                    chk!(tainted(&w) > before, "err-without-fault", "{} fails though the database did not: {:?}", $what, $e);
                    errs += 1;
                }};
            }
            match c.rng.below(12) {
                10 => {
                    c.op(|| "values".into());
                    let want: Vec<_> = w.model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    match lib("values", || w.trie.values())? {
                        Ok(x) => chk!(x == want, "wrong-values", "values() gives {} pairs under faults, must give {}: {:?}", x.len(), want.len(), x),
                        Err(e) => judge_err!("values", e),
                    }
                }
                11 => {
                    // an iterator cannot report an error, but must not invent, repeat or misplace pairs
                    let owned = c.rng.chance(1, 2);
                    c.op(|| format!("iterate (owned: {owned})"));
                    let lim = w.model.len() + 3;
                    let got: Vec<(Vec<u8>, Vec<u8>)> = if owned {
                        lib("owned-iter", || OwnedTrieIterator::new(w.trie.clone()).take(lim).collect())?
                    } else {
                        lib("iter", || w.trie.iter().take(lim).collect())?
                    };
                    chk!(got.windows(2).all(|p| p[0].0 < p[1].0), "iter-order", "iteration under faults is out of order: {got:?}");
                    for (k, v) in &got {
                        chk!(w.model.get(k) == Some(v), "wrong-iter", "iteration under faults yields {}={}, which is not in the trie", hx(k), hx(v));
                    }
                    chk!(got.len() == w.model.len() || tainted(&w) > before, "short-iter", "iteration yields {} of {} pairs though the database did not fail", got.len(), w.model.len());
                    c.count("iterations_under_faults", 1);
                }
                0 => {
                    c.op(|| format!("get {}", hx(&k)));
                    match lib("get", || w.trie.get(&k))? {
                        Ok(x) => chk!(x.as_ref() == w.model.get(&k), "wrong-get", "get({}) gives {:?} under faults, must give {:?}", hx(&k), x.map(|x| hx(&x)), w.model.get(&k).map(|x| hx(x))),
                        Err(e) => judge_err!("get", e),
                    }
                }
                1 => {
                    c.op(|| format!("contains {}", hx(&k)));
                    match lib("contains", || w.trie.contains(&k))? {
                        Ok(x) => chk!(x == w.model.contains_key(&k), "wrong-contains", "contains({}) gives {x} under faults", hx(&k)),
                        Err(e) => judge_err!("contains", e),
                    }
                }
                2 => {
                    c.op(|| format!("prove {}", hx(&k)));
                    match lib("get_proof", || w.trie.get_proof(&k))? {
                        Ok(p) => {
                            let root = mpt::root(&w.model);
                            let got = mpt::verify(&root, &k, &p);
                            chk!(got == Some(w.model.get(&k).cloned()), "wrong-proof", "under faults the proof of {} gives {:?}", hx(&k), got);
                        }
                        Err(e) => judge_err!("get_proof", e),
                    }
                }
                3 | 4 | 5 => {
                    let v = gen_val(&mut c.rng, id, true);
                    let k = w.keys[id].clone();
                    c.op(|| format!("insert {} = {}", hx(&k), hx(&v)));
                    match lib("insert", || w.trie.insert(&k, &v))? {
                        Ok(()) => {
                            w.model.insert(k, v);
                            w.dirty = true;
                        }
                        Err(e) => {
                            judge_err!("insert", e);
                            c.count("inserts_failed", 1);
                        }
                    }
                }
                6 | 7 => {
                    c.op(|| format!("remove {}", hx(&k)));
                    match lib("remove", || w.trie.remove(&k))? {
                        Ok(x) => {
                            let had = w.model.remove(&k).is_some();
                            chk!(x == had, "wrong-remove", "remove({}) reports {x} under faults, present: {had}", hx(&k));
                            w.dirty |= had;
                        }
                        Err(e) => {
                            judge_err!("remove", e);
                            c.count("removes_failed", 1);
                        }
                    }
                }
                _ => {
                    c.op(|| "commit".into());
                    match lib("commit", || w.trie.commit())? {
                        Ok(h) => {
                            let want = mpt::root(&w.model);
                            chk!(h.0 == want, "wrong-commit", "commit under faults gives root {}, must give {}", hx(&h.0), hx(&want));
                            w.committed = w.model.clone();
                            w.root = h;
                            w.dirty = false;
                            w.roots.push((h, w.model.clone()));
                        }
                        Err(e) => {
                            judge_err!("commit", e);
                            c.count("commits_failed", 1);
                            if light {
                                // the old root may be gone by now; only this trie counts
                                broken = true;
                            }
                        }
                    }
                }
            }
        }
        let (f, m) = {
            let s = w.db.st();
            (s.failed, s.missed)
        };
        c.count("faults_injected", f);
        c.count("lost_nodes_met", m);
        c.count("errors_reported", errs);
        w.db.heal();
        c.op(|| format!("database recovers ({f} failures, {m} misses, {errs} errors)"));
        // nothing changed, and everything still works
        check_reads(c, &w.trie, &w.model, &w.keys, true)?;
        if c.rng.chance(1, 3) {
            check_iter(c, &w.trie, &w.model)?;
        }
        if c.rng.chance(1, 3) || broken {
            let h = w.commit(c)?;
            let want = mpt::root(&w.model);
            chk!(h.0 == want, "root-after-recovery", "after recovery commit gives {}, must give {}", hx(&h.0), hx(&want));
            let t = w.trie.at_root(h);
            check_reads(c, &t, &w.model, &w.keys, true)?;
            check_iter(c, &t, &w.model)?;
            let need = mpt::build(&w.model);
            let have = w.db.dump();
            for x in need.nodes.keys() {
                chk!(have.contains_key(&x[..]), "node-lost", "after recovery and commit node {} is not stored", hx(x));
            }
            c.count("recoveries_committed", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P08

pub fn p08(c: &mut Case) -> R {
    let light = c.rng.chance(1, 2);
    let mut w = PWorld::<FDb>::new(c, light);
    let n = w.steps(c);
    for _ in 0..n {
        w.step(c)?;
    }
    if w.dirty || w.roots.is_empty() {
        w.commit(c)?;
    }
    for _ in 0..3 {
        let old = (w.root, w.committed.clone(), w.db.dump());
        let mut ops: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
        for _ in 0..c.rng.range(1, 8) {
            let before = w.model.clone();
            if c.rng.chance(2, 3) {
                w.insert(c)?;
            } else {
                w.remove(c)?;
            }
            for k in before.keys().chain(w.model.keys()).collect::<BTreeSet<_>>() {
                if before.get(k) != w.model.get(k) {
                    ops.push((k.clone(), w.model.get(k).cloned()));
                }
            }
        }
        w.db.st().log = Some(vec![]);
        w.commit(c)?;
        let log: Vec<Op> = w.db.st().log.take().unwrap().into_iter().filter(|o| !matches!(o, Op::Get(_))).collect();
        let total = log.iter().filter(|o| matches!(o, Op::Put(..))).count();
        let (mut puts, mut dels) = (0, 0);
        let mut at = old.2.clone();
        let sample = log.len() > 24;
        for cut in 0..=log.len() {
            if cut > 0 {
                match &log[cut - 1] {
                    Op::Put(k, v) => {
                        at.insert(k.clone(), v.clone());
                        puts += 1;
                    }
                    Op::Del(k) => {
                        if light {
                            at.remove(k);
                        }
                        dels += 1;
                    }
                    _ => {}
                }
            }
            if sample && cut != log.len() && !c.rng.chance(24, log.len()) {
                continue;
            }
            c.op(|| format!("crash after {cut} of {} writes", log.len()));
            c.count("crash_points", 1);
            let db = Arc::new(FDb::with(at.clone(), light));
            let mut readable = false;
            if dels == 0 {
                let mut t = InnerTrie::new(db.clone()).at_root(old.0);
                check_reads(c, &t, &old.1, &w.keys, true)?;
                check_iter(c, &t, &old.1)?;
                c.count("old_root_readable", 1);
                readable = true;
                // redo what was lost
                for (k, v) in &ops {
                    match v {
                        Some(v) => ok("insert", || t.insert(k, v))?,
                        None => {
                            ok("remove", || t.remove(k))?;
                        }
                    }
                }
                let h = ok("commit", || t.commit())?;
                chk!(h == w.root, "redo-root", "redone after a crash at write {cut}, the root is {}, must be {}", hx(&h.0), hx(&w.root.0));
                let t = t.at_root(h);
                check_reads(c, &t, &w.model, &w.keys, true)?;
                check_iter(c, &t, &w.model)?;
            }
            if puts == total {
                let db = Arc::new(FDb::with(at.clone(), light));
                let mut t = InnerTrie::new(db).at_root(w.root);
                check_reads(c, &t, &w.model, &w.keys, true)?;
                check_iter(c, &t, &w.model)?;
                let h = ok("commit", || {
                    let k = &w.keys[0];
                    match w.model.get(k) {
                        Some(v) => t.insert(k, v)?,
                        None => {
                            t.remove(k)?;
                        }
                    }
                    t.commit()
                })?;
                chk!(h == w.root, "redo-new", "recommitting the new root after a crash gives another one");
                c.count("new_root_readable", 1);
                readable = true;
            }
            chk!(readable, "neither", "a crash after {cut} of {} writes ({puts} of {total} insertions, {dels} removals) loses both the old and the new state", log.len());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P10

pub fn p10(c: &mut Case) -> R {
    with_db(c, p10_on::<FDb>, p10_on::<MemoryDB>)
}
fn p10_on<D: PDb>(c: &mut Case, _: bool) -> R {
    let mut w = PWorld::<D>::new(c, true);
    let n = w.steps(c) + 5;
    let mut former: BTreeSet<Vec<u8>> = BTreeSet::new();
    let faulty = c.rng.chance(1, 3);
    for i in 0..n {
        let before = w.roots.len();
        if faulty && c.rng.chance(1, 4) {
            // commits that fail, repeated until one succeeds
            let db = w.trie.db();
            for _ in 0..c.rng.range(1, 3) {
                let at = if c.rng.chance(1, 2) { c.rng.below(4) } else { c.rng.below(40) } as u64;
                db.fail_one(at);
                c.op(|| format!("commit while database call {at} fails"));
                let r = lib("commit", || w.trie.commit())?;
                if db.settle() > 0 {
                    chk!(r.is_err(), "fault-hidden", "a commit succeeds although a call of the database failed");
                    c.count("failed_commits", 1);
                }
            }
            w.commit(c)?;
        } else if i + 1 == n {
            w.commit(c)?;
        } else if c.rng.chance(1, 8) {
            // reads and proofs of pending states leave nothing behind
            let k = c.rng.pick(&w.keys).clone();
            c.op(|| format!("prove {}", hx(&k)));
            ok("get_proof", || w.trie.get_proof(&k))?;
            check_reads(c, &w.trie, &w.model, &w.keys, false)?;
            c.count("proofs_in_between", 1);
        } else {
            w.step(c)?;
        }
        if w.roots.len() == before {
            continue;
        }
        let need = mpt::build(&w.model);
        let have = w.db.dump();
        for (x, enc) in &need.nodes {
            match have.get(&x[..]) {
                None => vio!("node-missing", "after the commit node {} of the trie is not stored", hx(x)),
                Some(e) => chk!(e == enc, "node-wrong", "node {} is stored with other contents", hx(x)),
            }
        }
        let mut extra = 0;
        for x in have.keys() {
            if need.nodes.contains_key(&x[..]) {
                continue;
            }
            chk!(former.contains(x), "node-leaked", "after the commit node {}, which is neither part of the trie nor a former root, is still stored", hx(x));
            extra += 1;
        }
        chk!(extra < w.roots.len(), "roots-leaked", "more former roots stored than there were commits");
        former.insert(w.root.0.to_vec());
        c.count("storages_checked", 1);
        c.count("nodes_checked", have.len() as u64);
        if need.nodes.len() > 2 {
            c.count("multi_node_tries", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P11

pub fn p11(c: &mut Case) -> R {
    let mut w = PWorld::<MemoryDB>::new(c, false);
    let n = w.steps(c);
    for _ in 0..n {
        match c.rng.below(10) {
            0..=6 => w.insert(c)?,
            _ => w.remove(c)?,
        }
        if c.rng.chance(5, 6) {
            continue;
        }
        let json = c.rng.chance(1, 2);
        let t: InnerTrie<MemoryDB> = if json {
            let s = ok("to json", || if c.rng.chance(1, 4) { Ok(w.trie.to_string()) } else { serde_json::to_string(&w.trie) })?;
            if nesting(&s) > 120 {
                c.count("json_too_deep", 1);
                continue;
            }
            c.op(|| "through JSON".into());
            ok("from json", || serde_json::from_str(&s))?
        } else {
            c.op(|| "through bincode".into());
            let b = ok("to bincode", || bincode::serialize(&w.trie))?;
            ok("from bincode", || bincode::deserialize(&b))?
        };
        c.count(if json { "json_trips" } else { "bincode_trips" }, 1);
        check_reads(c, &t, &w.model, &w.keys, true)?;
        check_iter(c, &t, &w.model)?;
        // the copy commits by itself
        let mut u = t.clone();
        let h = ok("commit", || u.commit())?;
        let want = mpt::root(&w.model);
        chk!(h.0 == want, "root", "the decoded trie commits to {}, must be {}", hx(&h.0), hx(&want));
        check_reads(c, &u, &w.model, &w.keys, true)?;
        if c.rng.chance(1, 2) {
            // and goes on in place of the original
            w.db = t.db();
            w.trie = t;
            c.count("continued_on_copy", 1);
        }
    }
    let h = w.commit(c)?;
    let want = mpt::root(&w.model);
    chk!(h.0 == want, "root", "the trie commits to {}, must be {}", hx(&h.0), hx(&want));
    check_reads(c, &w.trie, &w.model, &w.keys, true)
}

fn nesting(s: &str) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for b in s.bytes() {
        match b {
            b'{' | b'[' => {
                d += 1;
                m = m.max(d);
            }
            b'}' | b']' => d -= 1,
            _ => {}
        }
    }
    m
}

#[allow(unused)]
fn unused(_: BTreeMap<u8, u8>, d: &MemoryDB) {
    let _ = Database::flush(d);
}

// ---------------------------------------------------------------- recorded defect

/// The recorded defect of pruning storage: a node shared by two keys is pruned with the first.
/// `Some` if it fails as recorded, `None` if the trie answers correctly.
pub fn witness_light_shared() -> R<Option<String>> {
    let db = Arc::new(MemoryDB::new(true));
    let mut t = InnerTrie::new(db);
    let (a, b, d) = ([0x11u8, 0x61, 0x62, 0x63], [0x21u8, 0x61, 0x62, 0x63], [0x31u8, 0x78, 0, 0]);
    let v = [7u8; 40];
    ok("insert", || t.insert(&a, &v))?;
    ok("insert", || t.insert(&b, &v))?;
    ok("insert", || t.insert(&d, &[9u8; 40]))?;
    ok("commit", || t.commit())?;
    chk!(ok("remove", || t.remove(&a))?, "remove-result", "remove of a present key reports false");
    let h = ok("commit", || t.commit())?;
    let mut m = Map::new();
    m.insert(b.to_vec(), v.to_vec());
    m.insert(d.to_vec(), vec![9u8; 40]);
    chk!(h.0 == mpt::root(&m), "root", "the recorded history commits to another root");
    match lib("get", || t.at_root(h).get(&b))? {
        Ok(Some(x)) if x == v => Ok(None),
        Err(patriecia::TrieError::MissingTrieNode { .. }) => Ok(Some(
            "pruning storage: after removing 11616263, key 21616263 with the same suffix and value cannot be read (MissingTrieNode), their shared node was pruned".into(),
        )),
        r => vio!("light-shared-subtree-other", "the recorded history gives {r:?} for a live key"),
    }
}

// ---------------------------------------------------------------- P12

/// Only commit writes, and it writes content-addressed nodes of the new trie on changed paths only.
pub fn p12(c: &mut Case) -> R {
    let light = c.rng.chance(1, 2);
    let mut w = PWorld::<FDb>::new(c, light);
    let n = w.steps(c) + 2;
    let mut touched: BTreeSet<Vec<u8>> = BTreeSet::new();
    // places of nodes that a removal may have loaded to merge them with what is above
    let mut merged: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut removals = 0;
    let mut prev = BTreeMap::new();
    for i in 0..n {
        w.db.st().log = Some(vec![]);
        let before = w.roots.len();
        let old = w.model.clone();
        let act = if i + 1 == n { 9 } else { c.rng.below(9) };
        match act {
            0..=2 => {
                w.insert(c)?;
                touched.insert(w.last.clone());
            }
            3 => {
                // a key that may be absent
                let k = if c.rng.chance(1, 2) { probes(&mut c.rng, &w.keys, 1).pop().unwrap() } else { c.rng.pick(&w.keys).clone() };
                c.op(|| format!("remove {}", hx(&k)));
                let had = w.model.remove(&k).is_some();
                let got = ok("remove", || w.trie.remove(&k))?;
                chk!(got == had, "remove-result", "remove({}) reports {got}", hx(&k));
                w.dirty |= had;
                touched.insert(k);
            }
            4 => w.refuse_empty(c)?,
            5 => {
                check_reads(c, &w.trie, &w.model, &w.keys, false)?;
                check_iter(c, &w.trie, &w.model)?;
                c.count("readings", 1);
            }
            6 => {
                // proofs, of a state that is committed or pending
                for _ in 0..c.rng.range(1, 3) {
                    let k = c.rng.pick(&w.keys).clone();
                    c.op(|| format!("proof of {}", hx(&k)));
                    let p = ok("get_proof", || w.trie.get_proof(&k))?;
                    let r = H256(mpt::root(&w.model));
                    let got = ok("verify_proof", || w.trie.verify_proof(r, &k, p))?;
                    chk!(got == w.model.get(&k).cloned(), "proof-value", "the proof of {} shows {:?}", hx(&k), got.map(|v| hx(&v)));
                }
                c.count(if w.dirty { "proofs_while_pending" } else { "proofs_of_committed" }, 1);
            }
            7 => {
                // (does nothing while there is no committed root)
                w.reopen(c);
                if !w.roots.is_empty() {
                    touched.clear();
                    merged.clear();
                    removals = 0;
                }
                continue;
            }
            _ => {
                w.commit(c)?;
            }
        }
        for k in old.keys().filter(|k| !w.model.contains_key(*k)) {
            let r = mpt::nibbles(k);
            for m in [&old, &w.model] {
                merged.extend(mpt::places(m).into_values().flatten().filter(|x| r.starts_with(&x.1)).map(|x| x.0));
            }
            removals += 1;
        }
        touched.extend(old.keys().chain(w.model.keys()).filter(|k| old.get(*k) != w.model.get(*k)).cloned());
        let log = w.db.st().log.take().unwrap_or_default();
        let puts: Vec<(&Vec<u8>, &Vec<u8>)> = log
            .iter()
            .filter_map(|o| match o {
                Op::Put(k, v) => Some((k, v)),
                _ => None,
            })
            .collect();
        if w.roots.len() == before {
            let writes = log.iter().filter(|o| !matches!(o, Op::Get(_))).count();
            chk!(writes == 0, "write-outside-commit", "step {act} outside a commit issues {writes} database writes: {:?}", puts.first());
            c.count("silent_steps", 1);
            continue;
        }
        let places = mpt::places(&w.model);
        let tn: Vec<Vec<u8>> = touched.iter().map(|k| mpt::nibbles(k)).collect();
        for (k, v) in &puts {
            chk!(keccak256(v)[..] == k[..], "not-content-addressed", "commit stores {} under {}, which is not its hash", hx(v), hx(k));
            if k[..] == w.root.0[..] {
                continue;
            }
            let h: [u8; 32] = k[..].try_into().unwrap();
            match places.get(&h) {
                None => vio!("foreign-node", "commit stores {}, which is no node of the committed trie", hx(v)),
                // On the path of a touched key; or what a split left beside one, in a form or at a place
                // that the trie before did not have; or what a removal merged with its parent.
                Some(at) => chk!(
                    at.iter().any(|(p, above)| {
                        let fresh = !prev.get(&h).map_or(false, |o: &Vec<(Vec<u8>, Vec<u8>)>| o.iter().any(|x| x.0 == *p));
                        tn.iter().any(|t| t.starts_with(p) || fresh && t.starts_with(above)) || merged.contains(p)
                    }),
                    "unrelated-node",
                    "commit writes the node at {:?}, on the path of no changed key ({} keys changed)",
                    at,
                    tn.len()
                ),
            }
        }
        if touched.is_empty() {
            chk!(puts.iter().all(|p| p.0[..] == w.root.0[..]), "writes-without-change", "a commit of nothing writes {} nodes", puts.len());
            c.count("commits_of_nothing", 1);
        }
        c.count("nodes_written", puts.len() as u64);
        c.count("nodes_in_trie", places.len() as u64);
        c.count("commits_checked", 1);
        if removals == 0 {
            c.count("commits_without_removal", 1);
        }
        touched.clear();
        merged.clear();
        removals = 0;
        prev = places;
    }
    Ok(())
}

// ---------------------------------------------------------------- P13

pub fn p13(c: &mut Case) -> R {
    let light = c.rng.chance(1, 3);
    let mut w = PWorld::<FDb>::new(c, light);
    let n = w.steps(c) + 2;
    for _ in 0..n {
        w.step(c)?;
        // also with changes pending over the committed root
        if w.roots.is_empty() || w.root == eroot() || c.rng.chance(1, 2) {
            continue;
        }
        for _ in 0..c.rng.range(1, 3) {
            damaged_call(c, &mut w)?;
        }
    }
    w.db.heal();
    w.commit(c)?;
    chk!(w.root.0 == mpt::root(&w.model), "final-root", "after the database recovered the commit gives root {}", hx(&w.root.0));
    check_reads(c, &w.trie, &w.model, &w.keys, true)?;
    check_iter(c, &w.trie, &w.model)
}

/// If the removal of a key leaves a branch with one child: the place of the branch, and how far the
/// paths of the keys in that child stay together. The nodes between the two are merged into one.
fn merged_by_removal(m: &Map, k: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if !m.contains_key(k) {
        return None;
    }
    let path = mpt::nibbles(k);
    let common = |a: &[u8], b: &[u8]| a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let others: Vec<Vec<u8>> = m.keys().filter(|x| **x != k).map(|x| mpt::nibbles(x)).collect();
    let at = others.iter().map(|o| common(o, &path)).max()?;
    let rest: Vec<&Vec<u8>> = others.iter().filter(|o| o.starts_with(&path[..at])).collect();
    let next = rest[0].get(at)?;
    if rest.iter().any(|o| o.get(at) != Some(next)) {
        return None;
    }
    let n = rest.iter().map(|o| common(o, rest[0])).min().unwrap();
    Some((path[..at].to_vec(), rest[0][..n].to_vec()))
}

/// One call on a database that has lost nodes. Those it does not need must not matter; those it
/// needs must be named by its errors, until it succeeds.
fn damaged_call(c: &mut Case, w: &mut PWorld<FDb>) -> R {
    use patriecia::TrieError;
    let places = mpt::places(&w.committed);
    let id = c.rng.below(w.keys.len());
    let k = match c.rng.below(4) {
        0 => probes(&mut c.rng, &w.keys, 1).pop().unwrap(),
        1 if !w.committed.is_empty() => w.committed.keys().nth(c.rng.below(w.committed.len())).unwrap().clone(),
        _ => w.keys[id].clone(),
    };
    let id = w.keys.iter().position(|x| *x == k);
    let call = match c.rng.below(7) {
        3 if id.is_none() => 0,
        x => x,
    };
    let name = ["get", "contains", "get_proof", "insert", "remove", "values", "commit"][call];
    let path = mpt::nibbles(&k);
    let merged = merged_by_removal(&w.model, &k);
    // the nodes the call may need
    let needed = |h: &Vec<u8>| -> bool {
        let h: [u8; 32] = match h[..].try_into() {
            Ok(h) => h,
            Err(_) => return false,
        };
        match call {
            5 => places.contains_key(&h),
            6 => false,
            4 => places.get(&h).map_or(false, |at| {
                at.iter().any(|(p, _)| {
                    path.starts_with(p) || merged.as_ref().map_or(false, |(q, end)| p.len() > q.len() && end.starts_with(p))
                })
            }),
            _ => places.get(&h).map_or(false, |at| at.iter().any(|(p, _)| path.starts_with(p))),
        }
    };
    let new_root = mpt::root(&w.model);
    let nodes: Vec<Vec<u8>> = w.db.st().map.keys().filter(|h| call != 6 || h[..] != new_root[..]).cloned().collect();
    let mut lost: std::collections::HashSet<Vec<u8>> = nodes.iter().filter(|h| !needed(h)).cloned().collect();
    let spared = lost.len();
    if c.rng.chance(1, 4) {
        lost.retain(|_| c.rng.chance(1, 2));
    }
    let mut hurt = 0u64;
    if c.rng.chance(2, 3) {
        let odds = c.rng.range(1, 3);
        for h in nodes.iter().filter(|h| needed(h)) {
            if c.rng.chance(odds, 3) {
                lost.insert(h.clone());
                hurt += 1;
            }
        }
    }
    c.op(|| format!("{name} {} with {} nodes lost, {hurt} of them needed", hx(&k), lost.len()));
    c.count("nodes_lost", lost.len() as u64);
    w.db.heal();
    w.db.st().lost = lost;
    let val = id.map(|id| gen_val(&mut c.rng, id, true));
    let mut fetched = 0u64;
    loop {
        let (db, trie, model, root) = (&w.db, &mut w.trie, &mut w.model, &mut w.root);
        let err: Option<TrieError> = match call {
            0 => match lib("get", || trie.get(&k))? {
                Ok(x) => {
                    chk!(x.as_ref() == model.get(&k), "wrong-get", "get({}) gives {:?} on a damaged database", hx(&k), x.map(|x| hx(&x)));
                    None
                }
                Err(e) => Some(e),
            },
            1 => match lib("contains", || trie.contains(&k))? {
                Ok(x) => {
                    chk!(x == model.contains_key(&k), "wrong-contains", "contains({}) gives {x} on a damaged database", hx(&k));
                    None
                }
                Err(e) => Some(e),
            },
            2 => match lib("get_proof", || trie.get_proof(&k))? {
                Ok(p) => {
                    let got = mpt::verify(&new_root, &k, &p);
                    chk!(got == Some(model.get(&k).cloned()), "wrong-proof", "the proof of {} from a damaged database gives {:?}", hx(&k), got);
                    None
                }
                Err(e) => Some(e),
            },
            3 => match lib("insert", || trie.insert(&k, val.as_ref().unwrap()))? {
                Ok(()) => {
                    model.insert(k.clone(), val.clone().unwrap());
                    w.dirty = true;
                    None
                }
                Err(e) => Some(e),
            },
            4 => match lib("remove", || trie.remove(&k))? {
                Ok(x) => {
                    let had = model.remove(&k).is_some();
                    chk!(x == had, "wrong-remove", "remove({}) reports {x} on a damaged database", hx(&k));
                    w.dirty |= had;
                    None
                }
                Err(e) => Some(e),
            },
            5 => match lib("values", || trie.values())? {
                Ok(x) => {
                    chk!(x.iter().map(|(a, b)| (a, b)).eq(model.iter()), "wrong-values", "values() gives {} pairs on a damaged database, must give {}", x.len(), model.len());
                    None
                }
                Err(e) => Some(e),
            },
            _ => match lib("commit", || trie.commit())? {
                Ok(h) => {
                    chk!(h.0 == new_root, "wrong-root", "commit on a damaged database gives {}", hx(&h.0));
                    *root = h;
                    w.committed = model.clone();
                    w.dirty = false;
                    w.roots.push((h, model.clone()));
                    None
                }
                Err(e) => Some(e),
            },
        };
        let Some(e) = err else { break };
        match &e {
            TrieError::MissingTrieNode { node_hash, traversed, root_hash, err_key } => {
                let h = node_hash.0.to_vec();
                chk!(db.st().lost.contains(&h), "names-other", "{name}({}) reports {} as missing, which is not", hx(&k), hx(&h));
                chk!(needed(&h), "needs-more", "{name}({}) fails for the node {} at {:?}, which is not on its way", hx(&k), hx(&h), places.get(&node_hash.0));
                chk!(err_key.is_some() || matches!(call, 1 | 5), "key-not-named", "{name}({}) fails without naming the key", hx(&k));
                chk!(err_key.as_ref().map_or(true, |x| *x == k), "other-key", "{name}({}) fails naming the key {:?}", hx(&k), err_key.as_ref().map(|x| hx(x)));
                chk!(root_hash.map_or(true, |x| x == *root), "other-root", "{name}({}) fails naming the root {:?}, not {}", hx(&k), root_hash, hx(&root.0));
                if let (Some(t), true) = (traversed, call != 5) {
                    let at = t.get_data();
                    chk!(
                        path.starts_with(at) && places[&node_hash.0].iter().any(|(p, _)| p[..] == *at),
                        "other-place",
                        "{name}({}) reports {} missing at {at:?}, but it belongs to {:?}",
                        hx(&k),
                        hx(&h),
                        places[&node_hash.0]
                    );
                    c.count("places_named", 1);
                }
                // supply just that node
                db.st().lost.remove(&h);
                fetched += 1;
            }
            e => vio!("not-named", "{name}({}) fails for a lost node with {e:?}", hx(&k)),
        }
    }
    chk!(fetched <= hurt, "too-many", "{name} asked for {fetched} nodes, {hurt} were lost");
    c.count("nodes_fetched", fetched);
    c.count(if fetched > 0 { "calls_completed_by_fetching" } else { "calls_not_hurt" }, 1);
    c.count("other_nodes_lost", spared as u64);
    w.db.heal();
    Ok(())
}
