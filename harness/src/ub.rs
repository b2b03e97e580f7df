//! Small workloads for the undefined-behaviour interpreter (U01). What the calls answer is the
//! business of the other monitors; here only memory errors, races and leaked stores count, so
//! errors are passed over and a panic ends the workload.
use crate::core::*;
use crate::jcommon::{gen_keys, gen_set, share_bits, kset, apply_set, Map, Mix, K, V};
use crate::pcommon::{gen_keys as pkeys, gen_val, probes};
use crate::{chk, vio};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{TreeReader, TreeUpdateBatch};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, SimpleHasher};
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie};
use std::sync::Arc;

/// A cheap stand-in for a cryptographic hash: the interpreter is slow.
#[derive(Clone, Debug)]
pub struct Fast([u64; 4]);
impl SimpleHasher for Fast {
    fn new() -> Self {
        Fast([1, 2, 3, 4])
    }
    fn update(&mut self, data: &[u8]) {
        for ch in data.chunks(8) {
            let mut b = [0u8; 8];
            b[..ch.len()].copy_from_slice(ch);
            let x = u64::from_le_bytes(b) ^ (ch.len() as u64) << 56;
            let t = (self.0[0] ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
            self.0 = [self.0[1] ^ t, self.0[2].wrapping_add(t), self.0[3] ^ t.rotate_left(17), t];
        }
    }
    fn finalize(self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for (i, x) in self.0.iter().enumerate() {
            o[8 * i..8 * i + 8].copy_from_slice(&mix(*x ^ i as u64).to_le_bytes());
        }
        o
    }
}
type Tree = JellyfishMerkleTree<MockTreeStore, Fast>;

/// Runs a workload; what it answers does not matter, a panic only ends it.
fn calm(c: &mut Case, f: impl FnOnce(&mut Case) -> anyhow::Result<()>) -> bool {
    match lib_catch(|| f(c)) {
        Ok(Ok(())) => {
            c.count("workloads_completed", 1);
            true
        }
        _ => {
            c.count("workloads_ended_early", 1);
            false
        }
    }
}

pub fn u01(c: &mut Case) -> R {
    c.nontrivial = true;
    let which = c.rng.below(4);
    c.print(c.seed);
    match which {
        0 => versioned(c),
        1 => restore(c),
        2 => trie(c),
        _ => handover(c),
    }
}

fn history(c: &mut Case, st: &Arc<MockTreeStore>) -> anyhow::Result<(Map, u64, Vec<K>)> {
    let n = c.rng.range(2, 7);
    // (deep trees take the interpreter minutes)
    let keys: Vec<K> = if cfg!(miri) {
        let base = c.rng.b32();
        (0..n).map(|_| share_bits(&mut c.rng, &base, [0, 1, 3, 5, 9][n % 5])).collect()
    } else {
        gen_keys(&mut c.rng, n)
    };
    let tree = Tree::new(st.clone());
    let mut m = Map::new();
    let mut ver = 0;
    for v in 0..c.rng.range(1, 4) as u64 {
        let s = gen_set(&mut c.rng, &m, &keys, Mix::Normal, 5);
        c.op(|| format!("version {v}: {} writes", s.len()));
        let (_, b) = if c.rng.chance(1, 3) && s.iter().all(|x| x.1.is_some()) && !s.is_empty() {
            let (r, b) = tree.batch_put_value_sets(vec![s.iter().map(|(k, v)| (KeyHash(*k), v.clone().unwrap())).collect()], None, v)?;
            (r[0], b)
        } else {
            tree.put_value_set(kset(&s), v)?
        };
        if c.rng.chance(1, 2) {
            let e = borsh::to_vec(&b)?;
            let b: TreeUpdateBatch = borsh::BorshDeserialize::try_from_slice(&e)?;
            st.write_tree_update_batch(b)?;
        } else {
            st.update(b)?;
        }
        apply_set(&mut m, &s);
        ver = v;
        c.count("versions_committed", 1);
    }
    Ok((m, ver, keys))
}

fn versioned(c: &mut Case) -> R {
    let st = Arc::new(MockTreeStore::new(c.rng.chance(1, 2)));
    let s = st.clone();
    let fine = calm(c, move |c| {
        let (m, ver, keys) = history(c, &s)?;
        let tree = Tree::new(s.clone());
        for k in keys.iter().take(3) {
            let (v, p) = tree.get_with_proof(KeyHash(*k), ver)?;
            let root = tree.get_root_hash(ver)?;
            p.verify(root, KeyHash(*k), v.as_ref())?;
            let e = borsh::to_vec(&p)?;
            let _: jmt::proof::SparseMerkleProof<Fast> = borsh::BorshDeserialize::try_from_slice(&e)?;
            let _ = VersionedTrie::get(&tree, KeyHash(*k), ver)?;
            let _ = tree.get_with_exclusion_proof(KeyHash(*k), ver)?;
            c.count("proofs_taken", 1);
        }
        if let Some(k) = m.keys().next() {
            let p = tree.get_range_proof(KeyHash(*k), ver)?;
            let _ = serde_json::to_string(&p)?;
        }
        let it = JellyfishMerkleIterator::new(s.clone(), ver, KeyHash([0; 32]))?;
        drop(tree);
        let n = it.filter(|x| x.is_ok()).count();
        c.count("pairs_iterated", n as u64);
        if !m.is_empty() {
            let mut it = JellyfishMerkleIterator::new_by_index(s.clone(), ver, m.len() / 2)?;
            it.next();
        }
        s.purge_stale_nodes(ver)?;
        let _ = (s.nodes().count(), s.value_history().count(), VersionedDatabase::len(&*s), s.version());
        Ok(())
    });
    if fine {
        let n = Arc::strong_count(&st);
        chk!(n == 1, "leak", "{n} handles of the store are left after trees and iterators are gone");
        c.count("leaks_looked_for", 1);
    }
    Ok(())
}

fn restore(c: &mut Case) -> R {
    let src = Arc::new(MockTreeStore::new(true));
    let dst = Arc::new(MockTreeStore::new(true));
    let (s, d) = (src.clone(), dst.clone());
    let fine = calm(c, move |c| {
        let (m, ver, _) = history(c, &s)?;
        let tree = Tree::new(s.clone());
        let root = tree.get_root_hash(ver)?;
        let all: Vec<(K, V)> = m.into_iter().collect();
        let mut at = 0;
        let mut r: JellyfishMerkleRestore<Fast> = JellyfishMerkleRestore::new(d.clone(), 9, root, true)?;
        while at < all.len() {
            let n = c.rng.range(1, all.len() - at);
            let chunk: Vec<_> = all[at..at + n].iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
            let p = tree.get_range_proof(chunk[n - 1].0, ver)?;
            if c.rng.chance(1, 5) {
                let mut bad = chunk.clone();
                bad[0].1.push(1);
                let _ = r.add_chunk(bad, p.clone());
                drop(r);
                r = JellyfishMerkleRestore::new(d.clone(), 9, root, true)?;
            } else {
                r.add_chunk(chunk, p)?;
                c.count("chunks", 1);
            }
            if c.rng.chance(1, 2) {
                // interrupted: a new one takes over
                drop(r);
                r = JellyfishMerkleRestore::new(d.clone(), 9, root, true)?;
                c.count("resumed", 1);
            }
            at = match d.get_rightmost_leaf()? {
                None => 0,
                Some((_, l)) => all.partition_point(|x| x.0 <= l.key_hash().0),
            };
            if at == 0 && c.rng.chance(1, 8) {
                break;
            }
        }
        drop(d);
        let _ = Box::new(r).finish_box();
        // a restore that alone holds its store
        let d = Arc::new(MockTreeStore::new(true));
        let mut r: JellyfishMerkleRestore<Fast> = JellyfishMerkleRestore::new_overwrite(d.clone(), 10, root, false)?;
        drop(d);
        if let Some((k, _)) = all.last() {
            let p = tree.get_range_proof(KeyHash(*k), ver)?;
            r.add_chunk(all.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect(), p)?;
            let _ = r.finish();
        }
        Ok(())
    });
    if fine {
        for (what, a) in [("source", &src), ("target", &dst)] {
            let n = Arc::strong_count(a);
            chk!(n == 1, "leak", "{n} handles of the {what} store are left after the restore is gone");
        }
        c.count("leaks_looked_for", 2);
    }
    Ok(())
}

fn trie(c: &mut Case) -> R {
    let db = Arc::new(MemoryDB::new(c.rng.chance(1, 2)));
    let d = db.clone();
    let fine = calm(c, move |c| {
        let mut keys = pkeys(&mut c.rng);
        keys.truncate(8);
        let mut t = InnerTrie::new(d.clone());
        let e = |e: patriecia::TrieError| anyhow::anyhow!("{e:?}");
        for _ in 0..c.rng.range(3, 12) {
            let i = c.rng.below(keys.len());
            match c.rng.below(9) {
                0..=3 => t.insert(&keys[i], &gen_val(&mut c.rng, i, true)).map_err(e)?,
                4 | 5 => {
                    t.remove(&keys[i]).map_err(e)?;
                }
                6 => {
                    let h = t.commit().map_err(e)?;
                    if c.rng.chance(1, 2) {
                        t = t.at_root(h);
                    }
                    c.count("commits", 1);
                }
                7 => {
                    let h = t.root_hash().map_err(e)?;
                    let mut p = t.get_proof(&keys[i]).map_err(e)?;
                    t.verify_proof(h, &keys[i], p.clone()).map_err(e)?;
                    if let Some(x) = p.last_mut() {
                        if !x.is_empty() {
                            let j = c.rng.below(x.len());
                            x[j] ^= 0x81;
                        }
                    }
                    let _ = t.verify_proof(h, &keys[i], p);
                    c.count("proofs_taken", 1);
                }
                _ => {
                    let n = t.iter().count();
                    let own = OwnedTrieIterator::new(t.clone());
                    c.count("pairs_iterated", (n + own.count()) as u64);
                }
            }
            for k in probes(&mut c.rng, &keys, 1) {
                let _ = t.get(&k);
            }
        }
        let b = bincode::serialize(&t)?;
        let _ = bincode::deserialize::<InnerTrie<MemoryDB>>(&b);
        Ok(())
    });
    if fine {
        let n = Arc::strong_count(&db);
        chk!(n == 1, "leak", "{n} handles of the database are left after the tries are gone");
        c.count("leaks_looked_for", 1);
    }
    Ok(())
}

/// Objects made on one thread and used and dropped on another.
fn handover(c: &mut Case) -> R {
    let db = Arc::new(MemoryDB::new(true));
    let st = Arc::new(MockTreeStore::default());
    let (d, s) = (db.clone(), st.clone());
    let fine = calm(c, move |c| {
        let (_, ver, keys) = history(c, &s)?;
        let tree = Tree::new(s.clone());
        let it = JellyfishMerkleIterator::new(s.clone(), ver, KeyHash([0; 32]))?;
        let n = std::thread::spawn(move || {
            let a = VersionedTrie::get(&tree, KeyHash(keys[0]), ver).ok().flatten().map_or(0, |v| v.len());
            a + it.count()
        })
        .join()
        .map_err(|_| anyhow::anyhow!("panic"))?;
        c.count("pairs_iterated", n as u64);
        let mut t = InnerTrie::new(d.clone());
        t.insert(b"abc", b"1").ok();
        t.insert(b"abd", &[7; 40]).ok();
        let x = d.clone();
        let h = std::thread::spawn(move || {
            x.insert(b"zz", vec![1]).ok();
            t.insert(b"b", b"2").ok();
            t.commit().ok().map(|h| (h, t))
        })
        .join()
        .map_err(|_| anyhow::anyhow!("panic"))?;
        if let Some((h, t)) = h {
            let _ = t.at_root(h).get(b"abd");
        }
        let _ = (d.len(), d.values().map(|v| v.len()));
        c.count("handovers", 1);
        Ok(())
    });
    if fine {
        let n = Arc::strong_count(&db) + Arc::strong_count(&st);
        chk!(n == 2, "leak", "{} handles of stores are left after their users are gone", n - 2);
        c.count("leaks_looked_for", 2);
    }
    if false {
        vio!("", "");
    }
    Ok(())
}
