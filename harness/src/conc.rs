//! Concurrent monitors: the shared versioned store (J17), the shared trie database (P09).
use crate::core::*;
use crate::jcommon::*;
use crate::jprops::{check_iter, check_proof, check_reads};
use crate::{chk, vio};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::Sha256;
use patriecia::{Database, MemoryDB};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

fn dither(r: &mut Rng) {
    match r.below(12) {
        0..=2 => std::thread::yield_now(),
        3..=4 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop();
            }
        }
        5 if r.chance(1, 8) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

fn merge(c: &mut Case, o: Case) {
    for (k, v) in o.ev {
        c.count(k, v);
    }
}

// ---------------------------------------------------------------- J17

struct Floors {
    /// nothing below is readable any more
    pruned: u64,
    readers: BTreeMap<usize, u64>,
}

pub fn j17(c: &mut Case) -> R {
    let mut w = World::<MockTreeStore, Sha256>::new(c, MockTreeStore::new(false));
    let mut groups = vec![];
    let goal = if c.thorough { c.rng.range(4, 30) } else { c.rng.range(3, 12) };
    while w.snaps.len() < goal {
        let sets = w.gen_group(c);
        let batch = w.batch_ok(&sets) && c.rng.chance(1, 3);
        let at = w.next_version();
        log_sets(c, at, &sets, batch);
        let roots = vec![[0u8; 32]; sets.len()];
        w.record(&sets, &roots)?;
        c.print_bytes(&w.snaps.last().unwrap().want_root);
        groups.push((at, sets, batch));
    }
    c.nontrivial = true;
    let total = w.snaps.len() as u64;
    let first = w.first;
    let base = w.store.clone();
    // number of versions whose commit has returned / whose commit has been started
    let done = AtomicU64::new(0);
    let started = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let floors = Mutex::new(Floors { pruned: 0, readers: BTreeMap::new() });
    let viol: Mutex<Option<Viol>> = Mutex::new(None);
    let readers = 3usize;
    let barrier = Barrier::new(readers + 2);
    let views: Vec<World<MockTreeStore, Sha256>> = (0..readers)
        .map(|i| {
            let st = if i == 0 { base.clone() } else { Arc::new((*base).clone()) };
            World {
                tree: new_tree(st.clone(), true),
                store: st,
                first,
                snaps: w.snaps.clone(),
                cur: w.cur.clone(),
                keys: w.keys.clone(),
                mix: w.mix,
                max_set: w.max_set,
                migration: true,
                last_write: w.last_write,
            }
        })
        .collect();
    // the version numbers that wrote values, by count of versions
    let mut wrote = vec![0u64];
    for (at, sets, _) in &groups {
        for (i, s) in sets.iter().enumerate() {
            wrote.push(if s.is_empty() { *wrote.last().unwrap() } else { at + i as u64 });
        }
    }
    let out: Mutex<Vec<Case>> = Mutex::new(vec![]);
    let fail = |v: Viol| {
        viol.lock().unwrap().get_or_insert(v);
        stop.store(true, SeqCst);
    };
    std::thread::scope(|sc| {
        let (done, started, stop, floors, barrier, out, wrote, fail) = (&done, &started, &stop, &floors, &barrier, &out, &wrote, &fail);
        let mk = |c: &mut Case| Case::new(c.rng.u64(), false, c.thorough);
        // the writer
        {
            let mut wc = mk(c);
            let st = Arc::new((*base).clone());
            let groups = &groups;
            let snaps = &w.snaps;
            sc.spawn(move || {
                let mut go = || -> R {
                    let tree = new_tree::<MockTreeStore, Sha256>(st.clone(), true);
                    barrier.wait();
                    for (at, sets, batch) in groups {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let (roots, b) = compute_on::<MockTreeStore, Sha256>(&mut wc, &tree, sets, *at, *batch)?;
                        for (i, r) in roots.iter().enumerate() {
                            let want = &snaps[(at - first) as usize + i].want_root;
                            chk!(r == want, "writer-root", "version {} commits to {}, must be {}", at + i as u64, hx(r), hx(want));
                        }
                        started.fetch_add(sets.len() as u64, SeqCst);
                        let half = wc.rng.chance(1, 2);
                        ok("commit", || if half { st.write_tree_update_batch(b) } else { st.update_batch(b) })?;
                        done.fetch_add(sets.len() as u64, SeqCst);
                        wc.count("commits", 1);
                        for _ in 0..wc.rng.below(4) {
                            dither(&mut wc.rng);
                        }
                    }
                    Ok(())
                };
                if let CaseEnd::Viol(v) = guarded(&mut go) {
                    fail(v);
                }
                stop.store(true, SeqCst);
                out.lock().unwrap().push(wc);
            });
        }
        // the pruner
        {
            let mut pc = mk(c);
            let st = Arc::new((*base).clone());
            sc.spawn(move || {
                let mut go = || -> R {
                    barrier.wait();
                    while !stop.load(SeqCst) {
                        let d = done.load(SeqCst);
                        if d > 0 && pc.rng.chance(1, 4) {
                            let to = {
                                let mut f = floors.lock().unwrap();
                                let lim = f.readers.values().copied().min().unwrap_or(u64::MAX).min(first + d - 1);
                                let lo = f.pruned.max(first);
                                let to = lo + pc.rng.below((lim.saturating_sub(lo) + 1) as usize) as u64;
                                f.pruned = f.pruned.max(to);
                                f.pruned
                            };
                            let n = st.num_nodes();
                            ok("purge_stale_nodes", || st.purge_stale_nodes(to))?;
                            pc.count("purges", 1);
                            if st.num_nodes() < n {
                                pc.count("purges_that_removed", 1);
                            }
                        }
                        dither(&mut pc.rng);
                        std::thread::yield_now();
                    }
                    Ok(())
                };
                if let CaseEnd::Viol(v) = guarded(&mut go) {
                    fail(v);
                }
                out.lock().unwrap().push(pc);
            });
        }
        for (i, view) in views.iter().enumerate() {
            let mut rc = mk(c);
            sc.spawn(move || {
                let mut go = || -> R {
                    barrier.wait();
                    let mut last = false;
                    loop {
                        if stop.load(SeqCst) {
                            if last {
                                break;
                            }
                            last = true;
                        }
                        let d0 = done.load(SeqCst);
                        let vi = {
                            let mut f = floors.lock().unwrap();
                            let lo = f.pruned.max(first) - first;
                            // the newest returned, the one after it, or any readable
                            let vi = match rc.rng.below(4) {
                                0 | 1 => d0.min(total - 1),
                                2 if d0 > 0 => d0 - 1,
                                _ => lo + rc.rng.below((d0.max(lo + 1) - lo) as usize) as u64,
                            };
                            if vi < lo {
                                continue;
                            }
                            f.readers.insert(i, first + vi);
                            vi
                        };
                        let ver = first + vi;
                        let mut tries = 0;
                        let root = loop {
                            let r = ok("get_root_hash_option", || view.tree.get_root_hash_option(ver))?;
                            if r.is_some() || vi < d0 || tries > 200 || stop.load(SeqCst) {
                                break r;
                            }
                            tries += 1;
                            std::hint::spin_loop();
                        };
                        match root {
                            None => chk!(vi >= d0, "commit-invisible", "version {ver} is not visible after its commit returned"),
                            Some(r) => {
                                let early = done.load(SeqCst) <= vi;
                                let s = &view.snaps[vi as usize];
                                chk!(r.0 == s.want_root, "root", "version {ver} shows root {}, must be {}", hx(&r.0), hx(&s.want_root));
                                for _ in 0..rc.rng.range(1, 4) {
                                    let k = probe_key(&mut rc.rng, &view.keys);
                                    check_reads(&mut rc, view, vi as usize, &k)?;
                                    if rc.rng.chance(1, 3) {
                                        check_proof(&mut rc, view, vi as usize, &k)?;
                                    }
                                }
                                if rc.rng.chance(1, 6) {
                                    check_iter(&mut rc, view, vi as usize)?;
                                    let n = ok("get_leaf_count", || view.tree.get_leaf_count(ver))?;
                                    chk!(n == Some(s.map.len()), "leaf-count", "version {ver} has leaf count {n:?}, must be {}", s.map.len());
                                }
                                rc.count("snapshots_read", 1);
                                if early {
                                    rc.count("seen_before_commit_returned", 1);
                                }
                                if done.load(SeqCst) > d0 {
                                    rc.count("reads_overlapping_commits", 1);
                                }
                            }
                        }
                        if rc.rng.chance(1, 8) {
                            let lo = wrote[done.load(SeqCst) as usize];
                            let v: u64 = lib("version", || view.store.version())?.0;
                            let hi = wrote[started.load(SeqCst) as usize];
                            chk!(v >= lo && v <= hi, "version", "the store's version is {v}, must be within {lo}..={hi}");
                        }
                        floors.lock().unwrap().readers.remove(&i);
                        dither(&mut rc.rng);
                    }
                    Ok(())
                };
                if let CaseEnd::Viol(v) = guarded(&mut go) {
                    fail(v);
                }
                floors.lock().unwrap().readers.remove(&i);
                out.lock().unwrap().push(rc);
            });
        }
    });
    for o in out.into_inner().unwrap() {
        merge(c, o);
    }
    if let Some(v) = viol.into_inner().unwrap() {
        return Err(v);
    }
    // all done: the newest version is complete, and nothing superseded is left after purging to it
    let last = first + total - 1;
    ok("purge_stale_nodes", || base.purge_stale_nodes(last))?;
    let v = &views[0];
    for k in v.keys.iter().take(12) {
        check_reads(c, v, total as usize - 1, k)?;
    }
    check_iter(c, v, total as usize - 1)?;
    let n = v.cur.len();
    chk!(base.len() == n, "len", "the store counts {} live keys, must be {n}", base.len());
    Ok(())
}

/// Runs a thread's body; a panic in it is a violation when it comes from the code under test.
fn guarded(f: &mut dyn FnMut() -> R) -> CaseEnd {
    match run_dyn(f) {
        CaseEnd::Harness(m) => CaseEnd::Viol(Viol { sig: "harness".into(), msg: m }),
        r => r,
    }
}

// ---------------------------------------------------------------- P09

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Put(u8, u8),
    Del(u8),
    Get(u8, Option<u8>),
    Len(usize),
    Empty(bool),
    List(Vec<(u8, u8)>),
}

#[derive(Clone, Debug)]
struct Ev {
    call: Call,
    inv: u64,
    ret: u64,
    thread: usize,
    batch: bool,
}

const KEYS: u8 = 4;
type State = [u8; KEYS as usize];

fn apply(s: &State, e: &Call, light: bool) -> Option<State> {
    let mut n = *s;
    let ok = match e {
        Call::Put(k, v) => {
            n[*k as usize] = *v;
            true
        }
        Call::Del(k) => {
            if light {
                n[*k as usize] = 0;
            }
            true
        }
        Call::Get(k, r) => s[*k as usize] == r.unwrap_or(0),
        Call::Len(l) => s.iter().filter(|x| **x != 0).count() == *l,
        Call::Empty(b) => s.iter().all(|x| *x == 0) == *b,
        Call::List(l) => {
            let want: Vec<(u8, u8)> = s.iter().enumerate().filter(|(_, x)| **x != 0).map(|(k, x)| (k as u8, *x)).collect();
            want == *l
        }
    };
    ok.then_some(n)
}

/// Wing-Gong search for an order that explains the history.
fn linearizable(evs: &[Ev], init: State, light: bool, nodes: &mut u64) -> bool {
    let mut seen: HashSet<(u64, State)> = HashSet::new();
    let full: u64 = if evs.len() == 64 { u64::MAX } else { (1u64 << evs.len()) - 1 };
    let mut stack = vec![(0u64, init)];
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            return true;
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        *nodes += 1;
        let min_ret = evs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in evs.iter().enumerate() {
            if mask >> i & 1 == 0 && e.inv <= min_ret {
                if let Some(n) = apply(&st, &e.call, light) {
                    stack.push((mask | 1 << i, n));
                }
            }
        }
    }
    false
}

fn key(k: u8) -> Vec<u8> {
    vec![b'k', k]
}

pub fn p09(c: &mut Case) -> R {
    // the checker itself must tell good from bad
    let e = |call: Call, inv: u64, ret: u64| Ev { call, inv, ret, thread: 0, batch: false };
    let mut n = 0;
    let bad = [e(Call::Put(0, 1), 0, 1), e(Call::Get(0, None), 2, 3)];
    let good = [e(Call::Put(0, 1), 0, 3), e(Call::Get(0, None), 1, 2)];
    assert!(!linearizable(&bad, [0; 4], true, &mut n) && linearizable(&good, [0; 4], true, &mut n));

    let light = c.rng.chance(1, 2);
    let db = MemoryDB::new(light);
    let mut init: State = [0; 4];
    for k in 0..KEYS {
        if c.rng.chance(1, 2) {
            init[k as usize] = 200 + k;
            ok("insert", || db.insert(&key(k), vec![200 + k]))?;
        }
    }
    let threads = c.rng.range(2, 4);
    let per = 24 / threads;
    let clock = AtomicU64::new(1);
    let barrier = Barrier::new(threads);
    let all: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let viol: Mutex<Option<Viol>> = Mutex::new(None);
    c.op(|| format!("pruning: {light}, initially {init:?}"));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let mut r = Rng::new(c.rng.u64());
            let db = db.clone();
            let (clock, barrier, all, viol) = (&clock, &barrier, &all, &viol);
            sc.spawn(move || {
                let mut evs: Vec<Ev> = vec![];
                let mut go = || -> R {
                    barrier.wait();
                    let heavy = r.chance(1, 3);
                    for i in 0..per {
                        let val = (t * per + i + 1) as u8;
                        let k = r.below(KEYS as usize) as u8;
                        let what = if heavy { r.range(5, 11) } else { r.below(11) };
                        if !heavy {
                            dither(&mut r);
                        }
                        let inv = clock.fetch_add(1, SeqCst);
                        let calls: Vec<Call> = match what {
                            0..=2 => {
                                ok("insert", || db.insert(&key(k), vec![val]))?;
                                vec![Call::Put(k, val)]
                            }
                            3 => {
                                ok("remove", || db.remove(&key(k)))?;
                                vec![Call::Del(k)]
                            }
                            4 => {
                                let n = r.range(1, 3);
                                let mut ks: Vec<u8> = (0..KEYS).collect();
                                r.shuffle(&mut ks);
                                ks.truncate(n);
                                if r.chance(2, 3) {
                                    ok("insert_batch", || db.insert_batch(ks.iter().map(|k| key(*k)).collect(), ks.iter().map(|_| vec![val]).collect()))?;
                                    ks.iter().map(|k| Call::Put(*k, val)).collect()
                                } else {
                                    let l: Vec<Vec<u8>> = ks.iter().map(|k| key(*k)).collect();
                                    ok("remove_batch", || db.remove_batch(&l))?;
                                    ks.iter().map(|k| Call::Del(*k)).collect()
                                }
                            }
                            5 | 6 => {
                                let g = ok("get", || db.get(&key(k)))?;
                                vec![Call::Get(k, g.map(|x| x.first().copied().unwrap_or(0)))]
                            }
                            7 => vec![Call::Len(ok("len", || db.len())?)],
                            8 => vec![Call::Empty(ok("is_empty", || db.is_empty())?)],
                            9 => {
                                let mut l: Vec<(u8, u8)> = ok("values", || Database::values(&db))?.into_iter().map(|(k, v)| (k[1], v[0])).collect();
                                l.sort();
                                vec![Call::List(l)]
                            }
                            10 => {
                                ok("flush", || db.flush())?;
                                vec![]
                            }
                            _ => {
                                ok("insert", || db.insert(&key(k), vec![val]))?;
                                vec![Call::Put(k, val)]
                            }
                        };
                        let ret = clock.fetch_add(1, SeqCst);
                        let batch = calls.len() > 1;
                        evs.extend(calls.into_iter().map(|call| Ev { call, inv, ret, thread: t, batch }));
                    }
                    Ok(())
                };
                if let CaseEnd::Viol(v) = guarded(&mut go) {
                    viol.lock().unwrap().get_or_insert(v);
                }
                all.lock().unwrap().extend(evs);
            });
        }
    });
    if let Some(v) = viol.into_inner().unwrap() {
        return Err(v);
    }
    let mut evs = all.into_inner().unwrap();
    // what is left in the end is part of the history
    let inv = clock.fetch_add(1, SeqCst);
    let mut l: Vec<(u8, u8)> = ok("values", || Database::values(&db))?.into_iter().map(|(k, v)| (k[1], v[0])).collect();
    l.sort();
    evs.push(Ev { call: Call::List(l), inv, ret: inv + 1, thread: 99, batch: false });
    evs.sort_by_key(|e| e.inv);
    let mut overlaps = 0u64;
    for (i, a) in evs.iter().enumerate() {
        overlaps += evs[i + 1..].iter().filter(|b| b.inv < a.ret && b.thread != a.thread).count() as u64;
    }
    for e in &evs {
        c.op(|| format!("[{:3} {:3}] thread {} {}{:?}", e.inv, e.ret, e.thread, if e.batch { "(batch) " } else { "" }, e.call));
        c.print_bytes(format!("{:?}{}", e.call, e.inv).as_bytes());
    }
    c.count("operations", evs.len() as u64);
    c.count("overlapping_pairs", overlaps);
    c.count("histories", 1);
    c.nontrivial = overlaps > 0;
    if overlaps > 0 {
        c.count("overlapping_histories", 1);
    }
    if evs.len() > 60 {
        c.count("histories_too_long", 1);
        return Ok(());
    }
    let mut nodes = 0;
    if !linearizable(&evs, init, light, &mut nodes) {
        let h: Vec<String> = evs.iter().map(|e| format!("[{} {}] t{} {:?}", e.inv, e.ret, e.thread, e.call)).collect();
        vio!("not-linearizable", "no order explains the history (pruning {light}, initially {init:?}): {}", h.join("; "));
    }
    c.count("search_states", nodes);
    Ok(())
}

// ---------------------------------------------------------------- P03, several writers

/// Several tries, each on its own thread, share one archive database; every root any of them
/// committed stays readable for everyone.
pub fn shared_tries(c: &mut Case) -> R {
    use crate::mpt::Map;
    use crate::pcommon::{check_iter, check_reads, gen_keys, gen_val};
    use patriecia::{InnerTrie, Trie, H256};
    let db = Arc::new(MemoryDB::new(false));
    let keys = gen_keys(&mut c.rng);
    let threads = c.rng.range(2, 3);
    let steps = c.rng.range(6, 20);
    let barrier = Barrier::new(threads);
    let roots: Mutex<Vec<(H256, Map)>> = Mutex::new(vec![]);
    let viol: Mutex<Option<Viol>> = Mutex::new(None);
    let out: Mutex<Vec<Case>> = Mutex::new(vec![]);
    c.op(|| format!("{threads} tries on {threads} threads share an archive database"));
    c.nontrivial = true;
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let mut tc = Case::new(c.rng.u64(), false, c.thorough);
            c.print(tc.seed);
            let (db, keys, roots, viol, barrier, out) = (db.clone(), &keys, &roots, &viol, &barrier, &out);
            sc.spawn(move || {
                let mut go = || -> R {
                    barrier.wait();
                    let mut t = InnerTrie::new(db.clone());
                    let mut m = Map::new();
                    for _ in 0..steps {
                        let id = tc.rng.below(keys.len());
                        let k = &keys[id];
                        match tc.rng.below(9) {
                            0..=3 => {
                                let v = gen_val(&mut tc.rng, id, false);
                                ok("insert", || t.insert(k, &v))?;
                                m.insert(k.clone(), v);
                            }
                            4 | 5 => {
                                let had = m.remove(k).is_some();
                                let got = ok("remove", || t.remove(k))?;
                                chk!(got == had, "remove-result", "remove({}) reports {got}, present: {had}", hx(k));
                            }
                            6 | 7 => {
                                let h = ok("commit", || t.commit())?;
                                let want = crate::mpt::root(&m);
                                chk!(h.0 == want, "root", "committed root is {}, must be {}", hx(&h.0), hx(&want));
                                roots.lock().unwrap().push((h, m.clone()));
                                tc.count("shared_commits", 1);
                            }
                            _ => {
                                let r = { let g = roots.lock().unwrap(); if g.is_empty() { None } else { Some(tc.rng.pick(&g).clone()) } };
                                if let Some((h, x)) = r {
                                    let u = t.at_root(h);
                                    check_reads(&mut tc, &u, &x, keys, false)?;
                                    check_iter(&mut tc, &u, &x)?;
                                    tc.count("shared_roots_read", 1);
                                    if tc.rng.chance(1, 2) {
                                        t = u;
                                        m = x;
                                    }
                                }
                            }
                        }
                        dither(&mut tc.rng);
                    }
                    Ok(())
                };
                if let CaseEnd::Viol(v) = guarded(&mut go) {
                    viol.lock().unwrap().get_or_insert(v);
                }
                out.lock().unwrap().push(tc);
            });
        }
    });
    for o in out.into_inner().unwrap() {
        merge(c, o);
    }
    if let Some(v) = viol.into_inner().unwrap() {
        return Err(v);
    }
    for (h, m) in roots.into_inner().unwrap() {
        let t = InnerTrie::new(db.clone()).at_root(h);
        check_reads(c, &t, &m, &keys, true)?;
        check_iter(c, &t, &m)?;
        c.count("roots_reopened", 1);
    }
    Ok(())
}
