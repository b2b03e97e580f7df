//! Shared parts of the Patricia-trie monitors: an observable database, generators, a model world.
use crate::core::*;
use crate::mpt::{self, Map};
use crate::{chk, vio};
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex, MutexGuard};

// ---------------------------------------------------------------- databases

#[derive(Debug, Clone)]
pub struct DbErr(pub &'static str);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DbErr {}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Get(Vec<u8>),
    Put(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
}

#[derive(Debug, Default)]
pub struct FState {
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
    pub light: bool,
    pub log: Option<Vec<Op>>,
    /// operations seen since the fault plan was set
    pub n: u64,
    /// operations with these indices (since the plan was set) fail
    pub fail: Option<(u64, u64)>,
    pub lost: HashSet<Vec<u8>>,
    pub failed: u64,
    pub missed: u64,
    pub calls: u64,
}

/// A database that records operations and can fail or lose nodes.
#[derive(Debug, Clone, Default)]
pub struct FDb(Arc<Mutex<FState>>);

impl FDb {
    pub fn new(light: bool) -> Self {
        let d = FDb::default();
        d.st().light = light;
        d
    }
    pub fn with(map: BTreeMap<Vec<u8>, Vec<u8>>, light: bool) -> Self {
        let d = FDb::new(light);
        d.st().map = map;
        d
    }
    pub fn st(&self) -> MutexGuard<'_, FState> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// the given operations from now on fail
    pub fn plan(&self, from: u64, n: u64) {
        let mut s = self.st();
        s.n = 0;
        s.fail = Some((from, from.saturating_add(n)));
        s.failed = 0;
        s.missed = 0;
    }
    pub fn heal(&self) {
        let mut s = self.st();
        s.fail = None;
        s.lost.clear();
    }
    fn step(&self) -> Result<MutexGuard<'_, FState>, DbErr> {
        let mut s = self.st();
        s.calls += 1;
        let i = s.n;
        s.n += 1;
        if let Some((a, b)) = s.fail {
            if i >= a && i < b {
                s.failed += 1;
                return Err(DbErr("injected database fault"));
            }
        }
        Ok(s)
    }
}

impl Database for FDb {
    type Error = DbErr;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, DbErr> {
        let mut s = self.step()?;
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Get(key.to_vec()));
        }
        if s.lost.contains(key) {
            s.missed += 1;
            return Ok(None);
        }
        Ok(s.map.get(key).cloned())
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), DbErr> {
        let mut s = self.step()?;
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Put(key.to_vec(), value.clone()));
        }
        s.map.insert(key.to_vec(), value);
        Ok(())
    }
    fn remove(&self, key: &[u8]) -> Result<(), DbErr> {
        let mut s = self.step()?;
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Del(key.to_vec()));
        }
        if s.light {
            s.map.remove(key);
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), DbErr> {
        Ok(())
    }
    fn len(&self) -> Result<usize, DbErr> {
        Ok(self.st().map.len())
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, DbErr> {
        Ok(self.st().map.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    }
    fn is_empty(&self) -> Result<bool, DbErr> {
        Ok(self.st().map.is_empty())
    }
}

pub trait PDb: Database + 'static {
    fn make(light: bool) -> Self;
    fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>>;
    /// The n-th call from now on fails (where the database can).
    fn fail_one(&self, _: u64) {}
    /// No more failures; how many calls failed.
    fn settle(&self) -> u64 {
        0
    }
}
impl PDb for FDb {
    fn fail_one(&self, n: u64) {
        self.plan(n, 1);
    }
    fn settle(&self) -> u64 {
        self.heal();
        self.st().failed
    }
    fn make(light: bool) -> Self {
        FDb::new(light)
    }
    fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.st().map.clone()
    }
}
impl PDb for MemoryDB {
    fn make(light: bool) -> Self {
        MemoryDB::new(light)
    }
    fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        Database::values(self).unwrap().into_iter().collect()
    }
}

// ---------------------------------------------------------------- generators

/// A universe of distinct keys, with much structure in common.
pub fn gen_keys(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(6) {
        // now and then a big trie
        _ if r.chance(1, 250) => r.range(80, 300),
        0 => r.range(1, 3),
        1..=4 => r.range(3, 14),
        _ => r.range(14, 40),
    };
    let mut s: BTreeSet<Vec<u8>> = BTreeSet::new();
    let kind = r.below(8);
    let blen = if r.chance(1, 60) { *r.pick(&[110usize, 111, 130, 300]) } else { *r.pick(&[1usize, 2, 4, 20, 32, 33, 60]) };
    let base = r.bytes(blen);
    for i in 0..n * 2 {
        if s.len() >= n {
            break;
        }
        let k = match if kind == 7 { r.below(7) } else { kind } {
            // tiny alphabet, short: dense prefixes, including the empty key
            0 => {
                let l = r.below(5);
                (0..l).map(|_| *r.pick(&[0x00u8, 0x01, 0x10, 0x11, 0xff])).collect()
            }
            // fixed-length random, as hashed keys are
            1 => {
                let l = if r.chance(1, 2) { 32 } else { 20 };
                r.bytes(l)
            }
            // chain of prefixes of one key
            2 => {
                let mut b = base.clone();
                b.truncate(r.range(0, base.len()));
                b
            }
            // fan at one nibble of one key
            3 => {
                let mut b = base.clone();
                let j = r.below(b.len());
                let x = (r.below(16)) as u8;
                b[j] = if r.chance(1, 2) { (b[j] & 0x0f) | (x << 4) } else { (b[j] & 0xf0) | x };
                b
            }
            // a common prefix, then something short
            4 => {
                let mut b = base.clone();
                let l = r.below(3);
                b.extend(r.bytes(l));
                b
            }
            // share a prefix with an earlier key
            5 => {
                let e: Vec<u8> = s.iter().nth(r.below(s.len().max(1))).cloned().unwrap_or_else(|| base.clone());
                let cut = r.range(0, e.len());
                let mut b = e[..cut].to_vec();
                let l = r.below(4);
                b.extend(r.bytes(l));
                b
            }
            // same suffix under different prefixes
            _ => {
                let mut b = vec![*r.pick(&[0u8, 1, 0x10, 0xf0, 0xff, i as u8])];
                b.extend_from_slice(&base);
                b
            }
        };
        s.insert(k);
    }
    if r.chance(1, 4) {
        s.insert(vec![]);
    }
    s.into_iter().collect()
}

/// A value for key number `id`. With `unique`, no two keys ever share a value.
pub fn gen_val(r: &mut Rng, id: usize, unique: bool) -> Vec<u8> {
    let len = match r.below(8) {
        0 => 1,
        1 | 2 => r.range(1, 8),
        3 => r.range(24, 36),
        4 => r.range(50, 60),
        5 if r.chance(1, 8) => r.range(250, 300),
        5 if r.chance(1, 40) => *r.pick(&[1024usize, 65533, 65536, 70000]),
        _ => r.range(1, 34),
    };
    if unique {
        let mut v = vec![id as u8, (id >> 8) as u8];
        v.extend(r.bytes(len.saturating_sub(2)));
        v
    } else if r.chance(1, 3) {
        // few different values, so that equal subtrees arise
        vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); len]
    } else {
        r.bytes(len)
    }
}

/// Keys to look up: the universe, and keys near it.
pub fn probes(r: &mut Rng, keys: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        let mut k = r.pick(keys).clone();
        match r.below(5) {
            0 => {
                k.pop();
            }
            1 => k.push(r.byte()),
            2 if !k.is_empty() => {
                let i = r.below(k.len());
                k[i] ^= 1 << r.below(8);
            }
            3 => {
                let l = r.below(6);
                k = r.bytes(l);
            }
            _ => {
                let cut = r.range(0, k.len());
                k.truncate(cut);
                let l = r.below(3);
                k.extend(r.bytes(l));
            }
        }
        out.push(k);
    }
    out
}

// ---------------------------------------------------------------- model world

pub struct PWorld<D: PDb> {
    pub db: Arc<D>,
    pub trie: InnerTrie<D>,
    pub model: Map,
    pub committed: Map,
    pub root: H256,
    pub keys: Vec<Vec<u8>>,
    pub light: bool,
    pub dirty: bool,
    /// every root committed so far, with its contents
    pub roots: Vec<(H256, Map)>,
    /// the key inserted last
    pub last: Vec<u8>,
}

pub fn eroot() -> H256 {
    H256(mpt::root(&Map::new()))
}

impl<D: PDb> PWorld<D> {
    pub fn new(c: &mut Case, light: bool) -> Self {
        let db = Arc::new(D::make(light));
        let keys = gen_keys(&mut c.rng);
        c.op(|| format!("pruning storage: {light}; keys:"));
        for k in &keys {
            c.op(|| format!("  {}", hx(k)));
        }
        PWorld {
            trie: InnerTrie::new(db.clone()),
            db,
            model: Map::new(),
            committed: Map::new(),
            root: eroot(),
            keys,
            light,
            dirty: false,
            roots: vec![],
            last: vec![],
        }
    }

    pub fn insert(&mut self, c: &mut Case) -> R {
        let id = c.rng.below(self.keys.len());
        let k = self.keys[id].clone();
        let v = match self.model.get(&k) {
            Some(old) if c.rng.chance(1, 8) => old.clone(),
            // the value of another key
            _ if !self.light && !self.model.is_empty() && c.rng.chance(1, 8) => {
                let i = c.rng.below(self.model.len());
                self.model.values().nth(i).unwrap().clone()
            }
            _ => gen_val(&mut c.rng, id, self.light),
        };
        c.op(|| format!("insert {} = {}", hx(&k), hx(&v)));
        ok("insert", || self.trie.insert(&k, &v))?;
        c.print_bytes(&k);
        c.print_bytes(&v);
        self.last = k.clone();
        if self.model.insert(k, v).is_some() {
            c.count("overwrites", 1);
        } else {
            c.count("inserts", 1);
        }
        self.dirty = true;
        c.nontrivial = true;
        Ok(())
    }

    pub fn remove(&mut self, c: &mut Case) -> R {
        let k = if c.rng.chance(1, 6) {
            probes(&mut c.rng, &self.keys, 1).pop().unwrap()
        } else if !self.model.is_empty() && c.rng.chance(3, 4) {
            let i = c.rng.below(self.model.len());
            self.model.keys().nth(i).unwrap().clone()
        } else {
            c.rng.pick(&self.keys).clone()
        };
        let had = self.model.remove(&k).is_some();
        c.op(|| format!("remove {} (present: {had})", hx(&k)));
        let got = ok("remove", || self.trie.remove(&k))?;
        c.print_bytes(&k);
        c.print(2);
        chk!(got == had, "remove-result", "remove({}) reports {got}, but the key was {}", hx(&k), if had { "present" } else { "absent" });
        c.count(if had { "removes" } else { "absent_removes" }, 1);
        self.dirty |= had;
        Ok(())
    }

    pub fn commit(&mut self, c: &mut Case) -> R<H256> {
        c.op(|| "commit".into());
        c.print(3);
        let a = c.rng.chance(1, 2);
        let h = ok("commit", || if a { self.trie.commit() } else { self.trie.root_hash() })?;
        self.committed = self.model.clone();
        self.root = h;
        self.dirty = false;
        self.roots.push((h, self.model.clone()));
        c.count("commits", 1);
        if self.model.is_empty() {
            c.count("empty_commits", 1);
        }
        Ok(h)
    }

    /// Opens the last committed root anew; what was pending is gone.
    pub fn reopen(&mut self, c: &mut Case) {
        if !self.roots.iter().any(|r| r.0 == self.root) {
            return;
        }
        c.op(|| "reopen at the committed root".into());
        c.print(4);
        self.trie = match c.rng.below(3) {
            0 => self.trie.at_root(self.root),
            1 => InnerTrie::new(self.db.clone()).at_root(self.root),
            _ => InnerTrie::new(Arc::new((*self.db).clone())).at_root(self.root),
        };
        self.db = self.trie.db();
        self.model = self.committed.clone();
        self.dirty = false;
        c.count("reopens", 1);
    }

    pub fn refuse_empty(&mut self, c: &mut Case) -> R {
        let k = c.rng.pick(&self.keys).clone();
        c.op(|| format!("insert {} = (empty)", hx(&k)));
        let r = lib("insert", || self.trie.insert(&k, &[]))?;
        chk!(r.is_err(), "empty-value", "an empty value is accepted for {}", hx(&k));
        c.count("empty_values_refused", 1);
        Ok(())
    }

    /// One random step; commits and reopens included.
    pub fn step(&mut self, c: &mut Case) -> R {
        match c.rng.below(40) {
            0..=17 => self.insert(c),
            18..=28 => self.remove(c),
            29..=34 => self.commit(c).map(|_| ()),
            35..=36 => {
                self.reopen(c);
                Ok(())
            }
            37 => self.refuse_empty(c),
            38 => {
                // empty the trie
                if c.rng.chance(1, 3) {
                    let ks: Vec<_> = self.model.keys().cloned().collect();
                    for k in ks {
                        c.op(|| format!("remove {}", hx(&k)));
                        let got = ok("remove", || self.trie.remove(&k))?;
                        chk!(got, "remove-result", "remove({}) of a present key reports false", hx(&k));
                        self.model.remove(&k);
                        self.dirty = true;
                        c.count("removes", 1);
                    }
                }
                Ok(())
            }
            _ => {
                // a burst
                let most = if self.keys.len() > 60 { self.keys.len() } else { 12 };
                for _ in 0..c.rng.range(3, most) {
                    self.insert(c)?;
                }
                Ok(())
            }
        }
    }

    pub fn steps(&mut self, c: &mut Case) -> usize {
        match c.rng.below(5) {
            0 => c.rng.range(1, 5),
            1..=3 => c.rng.range(5, 30),
            _ => c.rng.range(30, 80),
        }
    }
}

// ---------------------------------------------------------------- checks

pub fn check_reads<D: PDb>(c: &mut Case, t: &InnerTrie<D>, m: &Map, keys: &[Vec<u8>], full: bool) -> R {
    let mut ks: Vec<Vec<u8>> = if full { keys.to_vec() } else { (0..4).map(|_| c.rng.pick(keys).clone()).collect() };
    let n = if full { 6 } else { 2 };
    ks.extend(probes(&mut c.rng, keys, n));
    for k in &ks {
        let want = m.get(k);
        let got = ok("get", || t.get(k))?;
        chk!(got.as_ref() == want, "lookup", "get({}) gives {:?}, must give {:?}", hx(k), got.map(|x| hx(&x)), want.map(|x| hx(x)));
        let has = ok("contains", || t.contains(k))?;
        chk!(has == want.is_some(), "contains", "contains({}) gives {has}, must give {}", hx(k), want.is_some());
        c.count("lookups_checked", 1);
        if want.is_none() {
            c.count("absent_lookups", 1);
        }
    }
    Ok(())
}

pub fn check_iter<D: PDb>(c: &mut Case, t: &InnerTrie<D>, m: &Map) -> R {
    let want: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let lim = want.len() + 3;
    let got: Vec<_> = lib("iter", || t.iter().take(lim).collect())?;
    cmp_iter("iter", &want, &got)?;
    let got: Vec<_> = lib("owned-iter", || OwnedTrieIterator::new(t.clone()).take(lim).collect())?;
    cmp_iter("owned-iter", &want, &got)?;
    let got = ok("values", || t.values())?;
    cmp_iter("values", &want, &got)?;
    // once ended, it stays ended
    let again = lib("iter", || {
        let mut i = t.iter();
        while i.next().is_some() {}
        i.next().is_some() || i.next().is_some()
    })?;
    chk!(!again, "iter-resumes", "an ended iterator yields again");
    c.count("iterations_checked", 3);
    c.count("pairs_iterated", want.len() as u64);
    Ok(())
}

fn cmp_iter(what: &str, want: &[(Vec<u8>, Vec<u8>)], got: &[(Vec<u8>, Vec<u8>)]) -> R {
    if want != got {
        let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
        let s = |x: Option<&(Vec<u8>, Vec<u8>)>| x.map(|(k, v)| format!("{}={}", hx(k), hx(v))).unwrap_or("the end".into());
        vio!(
            format!("{what}-mismatch"),
            "{what}: at position {i} yields {}, must yield {} ({} of {} pairs)",
            s(got.get(i)),
            s(want.get(i)),
            got.len(),
            want.len()
        );
    }
    Ok(())
}

/// A proof from `t`, whose root is `root` and contents `m`, for `k`.
pub fn check_proof<D: PDb>(c: &mut Case, t: &mut InnerTrie<D>, root: H256, m: &Map, k: &[u8]) -> R<Vec<Vec<u8>>> {
    let want = m.get(k).cloned();
    let p = ok("get_proof", || t.get_proof(k))?;
    let other = InnerTrie::new(Arc::new(MemoryDB::new(c.rng.chance(1, 2))));
    let got = ok("verify_proof", || other.verify_proof(root, k, p.clone()))?;
    chk!(got == want, "proof-verdict", "the proof of {} gives {:?}, must give {:?}", hx(k), got.map(|x| hx(&x)), want.map(|x| hx(&x)));
    match mpt::verify(&root.0, k, &p) {
        None => vio!("proof-reference", "the proof of {} does not verify under the trie rules", hx(k)),
        Some(g) => chk!(g == want, "proof-reference", "under the trie rules the proof of {} gives {:?}, must give {:?}", hx(k), g.map(|x| hx(&x)), want.map(|x| hx(&x))),
    }
    c.count("proofs_checked", 1);
    c.count("proof_nodes", p.len() as u64);
    if want.is_none() {
        c.count("absence_proofs", 1);
    }
    if p.len() > 2 {
        c.count("deep_proofs", 1);
    }
    Ok(p)
}
