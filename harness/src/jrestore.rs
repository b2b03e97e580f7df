//! Chunked restore (J12, J13).
use crate::core::*;
use crate::jcommon::*;
use crate::jprops::{check_iter, check_proof, check_reads, mk_range_proof};
use crate::keccak::Kec;
use crate::smt;
use crate::{chk, vio};
use jmt::mock::MockTreeStore;
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{JellyfishMerkleIterator, KeyHash, RootHash, Sha256, SimpleHasher};
use std::sync::Arc;

type Chunk = Vec<(KeyHash, Vec<u8>)>;

fn source<H: SimpleHasher>(c: &mut Case) -> R<Option<(World<Obs, H>, usize)>> {
    let mut w = World::<Obs, H>::new(c, Obs::default());
    if w.mix == Mix::Churn {
        w.mix = Mix::Normal;
    }
    w.run(c)?;
    let full: Vec<usize> = (0..w.snaps.len()).filter(|i| !w.snaps[*i].map.is_empty()).collect();
    if full.is_empty() {
        return Ok(None);
    }
    let vi = *c.rng.pick(&full);
    Ok(Some((w, vi)))
}

fn range_proof<H: SimpleHasher>(w: &World<Obs, H>, vi: usize, k: &K) -> R<SparseMerkleRangeProof> {
    ok("get_range_proof", || w.tree.get_range_proof(KeyHash(*k), w.first + vi as u64))
}

fn data(s: &Snap, from: usize, to: usize) -> Chunk {
    s.pairs[from..to].iter().map(|(k, _)| (KeyHash(*k), s.map[k].clone())).collect()
}

/// The restored tree against the source version.
fn check_restored<S: TStore, H: SimpleHasher>(c: &mut Case, st: Arc<S>, ver: u64, s: &Snap, keys: &[K], migration: bool) -> R {
    let rw = World::<S, H> {
        tree: new_tree(st.clone(), true),
        store: st,
        first: ver,
        snaps: vec![Snap { map: s.map.clone(), pairs: s.pairs.clone(), want_root: s.want_root, got_root: s.want_root }],
        cur: s.map.clone(),
        keys: keys.to_vec(),
        mix: Mix::Normal,
        max_set: 8,
        migration: true,
        last_write: ver,
    };
    let r = ok("get_root_hash", || rw.tree.get_root_hash(ver))?.0;
    chk!(r == s.want_root, "restored-root", "restored root is {}, must be {}", hx(&r), hx(&s.want_root));
    let n = ok("get_leaf_count", || rw.tree.get_leaf_count(ver))?;
    chk!(
        n == Some(s.map.len()) || (!migration && n.is_none()),
        "restored-leaf-count",
        "restored leaf count is {n:?}, must be {}",
        s.map.len()
    );
    let step = 1 + s.pairs.len() / 40;
    for (i, (k, _)) in s.pairs.iter().enumerate() {
        if i % step == 0 {
            check_reads(c, &rw, 0, k)?;
        }
    }
    for _ in 0..8 {
        let k = probe_key(&mut c.rng, keys);
        check_reads(c, &rw, 0, &k)?;
        check_proof(c, &rw, 0, &k)?;
    }
    if migration {
        check_iter(c, &rw, 0)?;
    }
    let it = ok("iter-new", || JellyfishMerkleIterator::new(rw.store.clone(), ver, KeyHash([0; 32])))?;
    let (got, e) = lib("iter.next", || drain(it, s.map.len() + 1))??;
    let want: Vec<(K, V)> = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    chk!(e.is_none() && got == want, "restored-iter", "iteration of the restored tree is wrong: {e:?}");
    Ok(())
}

fn gen_version(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => 0,
        1 => u64::MAX - 1,
        2 => 1 << 33,
        _ => rng.below(3000) as u64,
    }
}

pub fn j12(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => j12_on::<MockTreeStore, Sha256>(c, MockTreeStore::new(true)),
        1 => j12_on::<Obs, Kec>(c, Obs::default()),
        2 => j12_on::<Obs, Sha256>(c, Obs::with_codec(Codec::Borsh)),
        _ => j12_on::<Obs, Sha256>(c, Obs::default()),
    }
}

fn open<S: TStore, H: SimpleHasher>(st: &Arc<S>, ver: u64, root: RootHash, mig: bool) -> R<JellyfishMerkleRestore<H>> {
    ok("restore-new", || JellyfishMerkleRestore::<H>::new(st.clone(), ver, root, mig))
}

/// Where a new restore on this store has to continue.
fn resume_at<S: TStore>(st: &S, s: &Snap) -> R<usize> {
    Ok(match ok("get_rightmost_leaf", || st.get_rightmost_leaf())? {
        None => 0,
        Some((_, l)) => s.pairs.partition_point(|p| p.0 <= l.key_hash().0),
    })
}

fn j12_on<S: TStore, H: SimpleHasher>(c: &mut Case, st: S) -> R {
    let (w, vi) = match source::<H>(c)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let s = &w.snaps[vi];
    let n = s.pairs.len();
    let st = Arc::new(st);
    let ver = gen_version(&mut c.rng);
    let root = RootHash(s.want_root);
    let mig = c.rng.chance(5, 6);
    let max = match c.rng.below(4) {
        0 => 1,
        1 => 3,
        2 => n,
        _ => 1 + n / 3,
    };
    let stop = *c.rng.pick(&[0usize, 1, 3, 6]);
    c.op(|| format!("restore version {} ({n} pairs) at version {ver}, chunks of at most {max}", w.first + vi as u64));
    c.print_bytes(&s.want_root);
    c.print(n as u64);
    c.nontrivial = n >= 2;
    let mut r = if c.rng.chance(1, 6) {
        ok("restore-overwrite", || JellyfishMerkleRestore::<H>::new_overwrite(st.clone(), ver, root, mig))?
    } else {
        open::<S, H>(&st, ver, root, mig)?
    };
    let mut pos = 0;
    let mut interruptions = 0;
    while pos < n {
        let m = c.rng.range(1, max.min(n - pos));
        let chunk = data(s, pos, pos + m);
        let p = range_proof(&w, vi, &s.pairs[pos + m - 1].0)?;
        c.op(|| format!("chunk {pos}..{}", pos + m));
        ok("add_chunk", || r.add_chunk(chunk, p))?;
        c.count("chunks_accepted", 1);
        pos += m;
        if interruptions < 12 && c.rng.below(10) < stop {
            interruptions += 1;
            drop(r);
            if c.rng.chance(1, 8) {
                r = ok("restore-overwrite", || JellyfishMerkleRestore::<H>::new_overwrite(st.clone(), ver, root, mig))?;
                pos = 0;
                c.count("restarted_over", 1);
            } else {
                r = open::<S, H>(&st, ver, root, mig)?;
                let at = resume_at(&*st, s)?;
                c.count(if at == 0 { "resumed_at_start" } else { "resumed_inside" }, 1);
                pos = at;
            }
            c.op(|| format!("interrupted; continue at {pos}"));
        }
    }
    if c.rng.chance(1, 2) {
        ok("finish", || r.finish())?;
    } else {
        ok("finish_box", || Box::new(r).finish_box())?;
    }
    c.count("restores_finished", 1);
    let keys = w.keys.clone();
    check_restored::<S, H>(c, st, ver, s, &keys, mig)
}

pub fn j13(c: &mut Case) -> R {
    if c.rng.chance(1, 5) {
        j13_on::<Kec>(c)
    } else {
        j13_on::<Sha256>(c)
    }
}

fn j13_on<H: SimpleHasher>(c: &mut Case) -> R {
    let (w, vi) = match source::<H>(c)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let s = &w.snaps[vi];
    let keys = w.keys.clone();
    let n = s.pairs.len();
    c.print_bytes(&s.want_root);
    c.nontrivial = n >= 2;
    for _ in 0..8 {
        let st = Arc::new(Obs::default());
        let ver = gen_version(&mut c.rng);
        let mig = c.rng.chance(3, 4);
        let foreign = if c.rng.chance(1, 8) {
            let o = match c.rng.below(3) {
                0 => c.rng.b32(),
                1 => smt::PLACEHOLDER,
                _ => w.snaps[c.rng.below(w.snaps.len())].want_root,
            };
            (o != s.want_root).then_some(o)
        } else {
            None
        };
        let other = foreign.and_then(|o| w.snaps.iter().find(|s| s.want_root == o && !s.pairs.is_empty()));
        let root = RootHash(foreign.unwrap_or(s.want_root));
        let mut r = open::<Obs, H>(&st, ver, root, mig)?;
        let mut pos = 0;
        c.op(|| format!("-- restore of version {} ({n} pairs) at {ver}, foreign root {}", w.first + vi as u64, foreign.is_some()));
        if foreign.is_none() {
            for _ in 0..c.rng.below(4) {
                if pos == n {
                    break;
                }
                let m = c.rng.range(1, n - pos);
                let chunk = data(s, pos, pos + m);
                let p = range_proof(&w, vi, &s.pairs[pos + m - 1].0)?;
                ok("add_chunk", || r.add_chunk(chunk, p))?;
                c.op(|| format!("good chunk {pos}..{}", pos + m));
                pos += m;
            }
            if c.rng.chance(1, 3) {
                drop(r);
                r = open::<Obs, H>(&st, ver, root, mig)?;
                pos = resume_at(&*st, s)?;
                c.op(|| format!("interrupted; continue at {pos}"));
            }
        }
        // bad (or, by luck, good) chunks
        let mut clean = true;
        for _ in 0..c.rng.below(3) {
            let (chunk, p, what) = bad_chunk(c, &w, vi, pos)?;
            let m = chunk.len();
            let truth = foreign.is_none()
                && clean
                && m > 0
                && pos + m <= n
                && chunk == data(s, pos, pos + m)
                && p.right_siblings() == &smt::side_siblings(&s.pairs, &s.pairs[pos + m - 1].0, true)[..];
            let before = (st.dump(), st.lock().writes);
            c.op(|| format!("chunk [{what}] of {m} pairs at {pos}, valid: {truth}"));
            if c.logging {
                for (k, v) in &chunk {
                    let l = format!("   {} = {}", hx(&k.0), hx(v));
                    c.op(|| l);
                }
            }
            let gave = if foreign.is_some() { chunk.clone() } else { Vec::new() };
            let res = lib("add_chunk", || r.add_chunk(chunk, p))?;
            let after = (st.dump(), st.lock().writes);
            match res {
                Ok(()) if truth => {
                    pos += m;
                    c.count("valid_chunks", 1);
                }
                // once a chunk was refused, what the object has taken in of it counts as given
                Ok(()) if !clean => c.count("accepted_after_refusal", 1),
                // by chance also a good chunk of the other tree asked for
                Ok(()) if other.map_or(false, |o| pos + m <= o.pairs.len() && gave == data(o, pos, pos + m)) => {
                    pos += m;
                    c.count("valid_foreign_chunks", 1);
                }
                Ok(()) => vio!("bad-chunk-accepted", "a bad chunk [{what}] of {m} pairs at {pos}/{n} is accepted"),
                Err(e) => {
                    chk!(!truth, "good-chunk-refused", "a good chunk of {m} pairs at {pos}/{n} is refused: {e}");
                    clean = false;
                    chk!(before == after, "refused-wrote", "a refused chunk [{what}] wrote to the store");
                    c.count("bad_chunks_refused", 1);
                }
            }
        }
        let before = st.dump();
        let res = lib("finish", || if c.rng.chance(1, 2) { r.finish() } else { Box::new(r).finish_box() })?;
        let complete = pos == n && clean && foreign.is_none() && n > 0;
        match res {
            Ok(()) => {
                // whatever happened, success means exactly the expected tree
                // (what was given may by chance be all of the other tree asked for)
                let s = match foreign {
                    None => s,
                    Some(_) => match other {
                        Some(s) => s,
                        None => vio!("finish-foreign", "finishing against a root that is no version's succeeds"),
                    },
                };
                check_restored::<Obs, H>(c, st.clone(), ver, s, &keys, mig)?;
                let (_, vals) = st.dump();
                for (k, h) in &vals {
                    let got = h.iter().next_back().and_then(|x| x.1.clone());
                    chk!(got == s.map.get(k).cloned(), "finish-values", "after finishing, the store holds value {:?} for {}", got, hx(k));
                }
                c.count("finished", 1);
                let again = lib("restore-new", || JellyfishMerkleRestore::<H>::new(st.clone(), ver, root, mig).is_ok())?;
                chk!(!again, "reopened", "a restore can be started on a completed store");
                continue;
            }
            Err(e) => {
                chk!(!complete, "finish-refused", "finishing a complete restore fails: {e}");
                chk!(st.dump() == before, "finish-wrote", "a refused finish wrote to the store");
                c.count("finish_refused", 1);
            }
        }
        let t = new_tree::<Obs, H>(st.clone(), true);
        let x = ok("get_root_hash_option", || t.get_root_hash_option(ver))?;
        chk!(x.is_none(), "root-stored", "an unfinished restore left a root at version {ver}");
        // a fresh restore on the same store still completes
        if (foreign.is_none() || pos == 0) && c.rng.chance(1, 3) {
            let root = RootHash(s.want_root);
            let mut r = open::<Obs, H>(&st, ver, root, mig)?;
            let at = resume_at(&*st, s)?;
            let p = range_proof(&w, vi, &s.pairs[n - 1].0)?;
            ok("add_chunk", || r.add_chunk(data(s, at, n), p))?;
            ok("finish", || r.finish())?;
            check_restored::<Obs, H>(c, st, ver, s, &keys, mig)?;
            c.count("completed_after_refusal", 1);
        }
    }
    Ok(())
}

fn bad_chunk<H: SimpleHasher>(
    c: &mut Case,
    w: &World<Obs, H>,
    vi: usize,
    pos: usize,
) -> R<(Chunk, SparseMerkleRangeProof, &'static str)> {
    let s = &w.snaps[vi];
    let n = s.pairs.len();
    let m = if pos < n { c.rng.range(1, n - pos) } else { 0 };
    let mut chunk = data(s, pos, pos + m);
    let last = if m > 0 { s.pairs[pos + m - 1].0 } else { s.pairs[n - 1].0 };
    let mut p = range_proof(w, vi, &last)?;
    let kind = c.rng.below(14);
    let rng = &mut c.rng;
    let what = match kind {
        0 => {
            chunk.clear();
            "empty"
        }
        1 if m > 0 => {
            let i = rng.below(m);
            chunk[i].1.push(1);
            "value"
        }
        2 if m > 0 => {
            let i = rng.below(m);
            let b = gen_depth(rng);
            chunk[i].0 = KeyHash(flip(&chunk[i].0 .0, b));
            chunk.sort_by_key(|x| x.0);
            "key"
        }
        3 if m > 1 => {
            let i = rng.below(m - 1);
            chunk.swap(i, i + 1);
            "swapped"
        }
        4 if m > 1 => {
            let i = rng.below(m - 1);
            chunk.remove(i);
            "gap"
        }
        5 if m > 1 => {
            chunk.pop();
            "truncated"
        }
        6 if m > 0 => {
            let i = rng.below(m);
            let k = match rng.below(3) {
                0 => pred(&chunk[i].0 .0),
                1 => succ(&chunk[i].0 .0),
                _ => {
                    let b = gen_depth(rng);
                    share_bits(rng, &chunk[i].0 .0, b)
                }
            };
            chunk.push((KeyHash(k), gen_value(rng)));
            chunk.sort_by_key(|x| x.0);
            "extra"
        }
        7 | 8 => {
            let mut r = p.right_siblings().to_vec();
            match rng.below(5) {
                0 => {
                    r.pop();
                }
                1 => r.push(rng.b32()),
                2 => r.insert(0, smt::PLACEHOLDER),
                3 => {
                    let l = *rng.pick(&[0usize, 128, 256, 257, 300]);
                    r.resize(l, smt::PLACEHOLDER)
                }
                _ => {
                    if !r.is_empty() {
                        let i = rng.below(r.len());
                        let b = rng.below(256);
                        r[i] = flip(&r[i], b);
                    }
                }
            }
            p = mk_range_proof(&r);
            "proof"
        }
        9 => {
            let k = s.pairs[rng.below(n)].0;
            p = range_proof(w, vi, &k)?;
            "other proof"
        }
        10 if pos + 1 < n => {
            let from = rng.range(pos + 1, n - 1);
            let to = rng.range(from + 1, n);
            chunk = data(s, from, to);
            p = range_proof(w, vi, &s.pairs[to - 1].0)?;
            "skipping"
        }
        11 => {
            let from = rng.below(pos.max(1));
            let to = rng.range(from + 1, n);
            chunk = data(s, from, to);
            p = range_proof(w, vi, &s.pairs[to - 1].0)?;
            "repeated"
        }
        12 if m > 0 => {
            let i = rng.below(m);
            let x = chunk[i].clone();
            chunk.insert(i, x);
            "duplicate"
        }
        _ => "as is",
    };
    Ok((chunk, p, what))
}
