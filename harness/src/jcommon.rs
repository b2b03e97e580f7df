//! Versioned tree: instrumented store, workload generator, the world (real tree + plain maps).
use crate::core::*;
use crate::smt;
use crate::{chk, vio};
use anyhow::anyhow;
use jmt::db::{Version as Ver, VersionedDatabase};
use jmt::mock::MockTreeStore;
use jmt::reader::Preimage;
use jmt::storage::{
    HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch,
    TreeWriter,
};
use jmt::{JellyfishMerkleTree, KeyHash, OwnedValue, SimpleHasher, ValueHash};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex, MutexGuard};

pub type K = [u8; 32];
pub type V = Vec<u8>;
pub type Map = BTreeMap<K, V>;
pub type Set = Vec<(K, Option<V>)>;

// ---------------------------------------------------------------- the instrumented store

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Codec {
    Objects,
    Borsh,
    Json,
    Bincode,
}

#[derive(Default)]
pub struct Inner {
    pub codec: Option<Codec>,
    pub nodes: HashMap<NodeKey, Node>,
    pub bytes: BTreeMap<Vec<u8>, Vec<u8>>,
    pub values: BTreeMap<K, BTreeMap<u64, Option<V>>>,
    pub stale: Vec<StaleNodeIndex>,
    pub preimages: HashMap<K, Vec<u8>>,
    pub lost: HashSet<NodeKey>,
    pub lost_vals: HashSet<K>,
    pub reads: u64,
    pub fail_at: Option<u64>,
    pub failed: u64,
    pub failed_node: Option<NodeKey>,
    pub budget: u64,
    pub writes: u64,
    pub log_on: bool,
    pub rlog: Vec<NodeKey>,
    /// refuse writes from the n-th batch on
    pub fail_write: bool,
}

/// A store that records what the tree does and injects faults.
#[derive(Clone, Default)]
pub struct Obs(pub Arc<Mutex<Inner>>);

impl std::fmt::Debug for Obs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Obs")
    }
}

pub fn enc<T: serde::Serialize + borsh::BorshSerialize>(c: Codec, t: &T) -> Vec<u8> {
    match c {
        Codec::Json => serde_json::to_vec(t).expect("json encode"),
        Codec::Bincode => bincode::serialize(t).expect("bincode encode"),
        _ => borsh::to_vec(t).expect("borsh encode"),
    }
}
pub fn dec<T: serde::de::DeserializeOwned + borsh::BorshDeserialize>(
    c: Codec,
    b: &[u8],
) -> anyhow::Result<T> {
    Ok(match c {
        Codec::Json => serde_json::from_slice(b)?,
        Codec::Bincode => bincode::deserialize(b)?,
        _ => T::try_from_slice(b)?,
    })
}

impl Obs {
    pub fn with_codec(c: Codec) -> Self {
        let o = Obs::default();
        if c != Codec::Objects {
            o.lock().codec = Some(c);
        }
        o
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn pre(i: &mut Inner, what: &str) -> anyhow::Result<()> {
        i.reads += 1;
        if i.budget > 0 && i.reads > i.budget {
            i.budget = 0;
            drop(what);
            panic!("operation does not terminate: too many store reads");
        }
        if i.fail_at == Some(i.reads) {
            i.failed += 1;
            return Err(anyhow!("injected read failure"));
        }
        Ok(())
    }
    pub fn arm(&self, fail_at: Option<u64>, budget: u64) {
        let mut i = self.lock();
        i.reads = 0;
        i.fail_at = fail_at;
        i.budget = budget;
        i.failed = 0;
        i.failed_node = None;
    }
    pub fn start_log(&self) {
        let mut i = self.lock();
        i.log_on = true;
        i.rlog.clear();
    }
    pub fn take_log(&self) -> Vec<NodeKey> {
        let mut i = self.lock();
        i.log_on = false;
        std::mem::take(&mut i.rlog)
    }
    pub fn raw_node(&self, k: &NodeKey) -> Option<Node> {
        let i = self.lock();
        match i.codec {
            None => i.nodes.get(k).cloned(),
            Some(c) => i.bytes.get(&enc(c, k)).map(|b| dec(c, b).expect("stored node decodes")),
        }
    }
    pub fn put_nodes<'a>(&self, ns: impl Iterator<Item = (&'a NodeKey, &'a Node)>) {
        let mut i = self.lock();
        for (k, n) in ns {
            match i.codec {
                None => {
                    i.nodes.insert(k.clone(), n.clone());
                }
                Some(c) => {
                    i.bytes.insert(enc(c, k), enc(c, n));
                }
            }
        }
    }
    pub fn put_vals<'a>(&self, vs: impl Iterator<Item = (&'a (u64, KeyHash), &'a Option<V>)>) {
        let mut i = self.lock();
        for ((ver, k), v) in vs {
            i.values.entry(k.0).or_default().insert(*ver, v.clone());
        }
    }
    pub fn update_batch_nodes(&self, b: &TreeUpdateBatch) -> anyhow::Result<()> {
        self.write_node_batch(&b.node_batch)
    }
    pub fn remove_node(&self, k: &NodeKey) -> bool {
        let mut i = self.lock();
        match i.codec {
            None => i.nodes.remove(k).is_some(),
            Some(c) => {
                let kb = enc(c, k);
                i.bytes.remove(&kb).is_some()
            }
        }
    }
    pub fn node_count(&self) -> usize {
        let i = self.lock();
        i.nodes.len() + i.bytes.len()
    }
    /// Full comparable dump.
    pub fn dump(&self) -> (BTreeMap<NodeKey, Node>, BTreeMap<K, BTreeMap<u64, Option<V>>>) {
        let i = self.lock();
        (self.dump_nodes(&i), i.values.clone())
    }
    fn dump_nodes(&self, i: &Inner) -> BTreeMap<NodeKey, Node> {
        match i.codec {
            None => i.nodes.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            Some(c) => i
                .bytes
                .iter()
                .map(|(k, v)| (dec(c, k).expect("key decodes"), dec(c, v).expect("node decodes")))
                .collect(),
        }
    }
    /// Rewrites the stored nodes as a version without leaf counts left them: no internal child
    /// has a known count. Gives the number of nodes changed.
    pub fn forget_counts(&self) -> u64 {
        let all = self.dump().0;
        let mut changed: Vec<(NodeKey, Node)> = vec![];
        for (k, n) in all {
            let Ok(mut j) = serde_json::to_value(&n) else { return 0 };
            let mut inner = 0;
            forget(&mut j, &mut inner);
            if inner == 0 {
                continue;
            }
            if let Some(x) = j.get_mut("Internal").and_then(|x| x.get_mut("leaf_count")) {
                *x = serde_json::Value::Null;
            }
            let Ok(new) = serde_json::from_value::<Node>(j) else { return 0 };
            changed.push((k, new));
        }
        self.put_nodes(changed.iter().map(|(k, n)| (k, n)));
        changed.len() as u64
    }
    pub fn fork(&self) -> Obs {
        let i = self.lock();
        Obs(Arc::new(Mutex::new(Inner {
            codec: i.codec,
            nodes: i.nodes.clone(),
            bytes: i.bytes.clone(),
            values: i.values.clone(),
            stale: i.stale.clone(),
            preimages: i.preimages.clone(),
            ..Default::default()
        })))
    }
}

fn forget(j: &mut serde_json::Value, n: &mut u64) {
    use serde_json::Value as J;
    match j {
        J::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k == "node_type" && x.get("Internal").is_some() {
                    *x = J::String("InternalLegacy".into());
                    *n += 1;
                } else {
                    forget(x, n);
                }
            }
        }
        J::Array(v) => v.iter_mut().for_each(|x| forget(x, n)),
        _ => {}
    }
}

impl TreeReader for Obs {
    type Version = Ver;
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        let mut i = self.lock();
        if let Err(e) = Obs::pre(&mut i, "node") {
            i.failed_node = Some(k.clone());
            return Err(e);
        }
        if i.lost.contains(k) {
            return Ok(None);
        }
        let r = match i.codec {
            None => i.nodes.get(k).cloned(),
            Some(c) => match i.bytes.get(&enc(c, k)) {
                Some(b) => Some(dec(c, b)?),
                None => None,
            },
        };
        if i.log_on && r.is_some() {
            i.rlog.push(k.clone());
        }
        Ok(r)
    }
    fn get_value_option(&self, v: Ver, k: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        let mut i = self.lock();
        Obs::pre(&mut i, "value")?;
        if i.lost_vals.contains(&k.0) {
            return Ok(None);
        }
        Ok(i.values
            .get(&k.0)
            .and_then(|h| h.range(..=v.0).next_back())
            .and_then(|(_, v)| v.clone()))
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        let mut i = self.lock();
        Obs::pre(&mut i, "rightmost")?;
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in self.dump_nodes(&i) {
            if let Node::Leaf(l) = n {
                if best.as_ref().map_or(true, |(_, b)| l.key_hash() > b.key_hash()) {
                    best = Some((k, l));
                }
            }
        }
        Ok(best)
    }
}

impl VersionedDatabase for Obs {
    type Version = Ver;
    type NodeIter = std::vec::IntoIter<(NodeKey, Node)>;
    type HistoryIter = std::vec::IntoIter<(KeyHash, Vec<(Ver, Option<OwnedValue>)>)>;
    fn get(&self, v: Ver, k: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        self.get_value_option(v, k)
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.write_node_batch(&b.node_batch)?;
        self.lock().stale.extend(b.stale_node_index_batch);
        Ok(())
    }
    fn nodes(&self) -> Self::NodeIter {
        self.dump().0.into_iter().collect::<Vec<_>>().into_iter()
    }
    fn value_history(&self) -> Self::HistoryIter {
        let i = self.lock();
        i.values
            .iter()
            .map(|(k, h)| (KeyHash(*k), h.iter().map(|(v, x)| (Ver(*v), x.clone())).collect()))
            .collect::<Vec<_>>()
            .into_iter()
    }
}

impl TreeWriter for Obs {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        {
            let mut i = self.lock();
            if i.fail_write {
                return Err(anyhow!("injected write failure"));
            }
            i.writes += 1;
        }
        self.put_nodes(b.nodes().iter());
        self.put_vals(b.values().iter());
        Ok(())
    }
}

impl HasPreimage for Obs {
    fn preimage(&self, k: KeyHash) -> anyhow::Result<Option<Preimage>> {
        Ok(self.lock().preimages.get(&k.0).cloned().map(Preimage))
    }
}

pub trait TStore:
    TreeReader<Version = Ver> + VersionedDatabase<Version = Ver> + TreeWriter + HasPreimage + 'static
{
    fn apply(&self, b: TreeUpdateBatch) -> anyhow::Result<()>;
    fn add_preimage(&self, p: &[u8]);
}
impl TStore for Obs {
    fn apply(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.update_batch(b)
    }
    fn add_preimage(&self, p: &[u8]) {
        self.lock().preimages.insert(smt::sha(&[p]), p.to_vec());
    }
}
impl TStore for MockTreeStore {
    fn apply(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.write_tree_update_batch(b)
    }
    fn add_preimage(&self, p: &[u8]) {
        self.put_key_preimage::<jmt::Sha256>(&Preimage(p.to_vec()));
    }
}

// ---------------------------------------------------------------- key and value generation

pub fn flip(k: &K, i: usize) -> K {
    let mut r = *k;
    r[i / 8] ^= 1 << (7 - i % 8);
    r
}
/// Shares exactly the first `n` bits with `k`; the rest is random.
pub fn share_bits(rng: &mut Rng, k: &K, n: usize) -> K {
    let r = rng.b32();
    let mut o = *k;
    for i in n..256 {
        let b = if i == n { !smt::bit(k, i) } else { smt::bit(&r, i) };
        if b != smt::bit(&o, i) {
            o = flip(&o, i);
        }
    }
    o
}
pub fn succ(k: &K) -> K {
    let mut r = *k;
    for i in (0..32).rev() {
        r[i] = r[i].wrapping_add(1);
        if r[i] != 0 {
            break;
        }
    }
    r
}
pub fn pred(k: &K) -> K {
    let mut r = *k;
    for i in (0..32).rev() {
        r[i] = r[i].wrapping_sub(1);
        if r[i] != 255 {
            break;
        }
    }
    r
}
pub fn with_nibble(k: &K, i: usize, n: u8) -> K {
    let mut r = *k;
    if i % 2 == 0 {
        r[i / 2] = (r[i / 2] & 15) | (n << 4);
    } else {
        r[i / 2] = (r[i / 2] & 0xf0) | n;
    }
    r
}

/// Depth biased to the interesting places: shallow, around nibble boundaries, the very bottom.
pub fn gen_depth(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.below(9),
        1 => rng.below(40),
        2 => 4 * rng.below(64) + rng.below(2),
        3 => 255 - rng.below(9),
        4 => 127 + rng.below(3),
        _ => rng.below(256),
    }
}

pub fn gen_keys(rng: &mut Rng, n: usize) -> Vec<K> {
    let mut out: BTreeSet<K> = BTreeSet::new();
    let mut bases: Vec<K> = (0..rng.range(1, 3)).map(|_| rng.b32()).collect();
    if rng.chance(1, 3) {
        bases.push([0u8; 32]);
    }
    if rng.chance(1, 3) {
        bases.push([255u8; 32]);
    }
    let style = rng.below(7);
    let mut guard = 0;
    while out.len() < n && guard < n * 20 {
        guard += 1;
        let s = if style == 6 { rng.below(6) } else { style };
        let base = *rng.pick(&bases);
        match s {
            0 => {
                out.insert(rng.b32());
            }
            1 => {
                // shares a random number of bits with the base
                let d = gen_depth(rng);
                out.insert(share_bits(rng, &base, d));
                out.insert(base);
            }
            2 => {
                // several of the 16 children below one nibble prefix
                let d = gen_depth(rng) / 4;
                let full = rng.chance(1, 4);
                for x in 0..16u8 {
                    if full || rng.chance(1, 2) {
                        let mut k = with_nibble(&base, d, x);
                        if rng.chance(1, 2) && d < 63 {
                            let b = rng.range(4 * d + 4, 255);
                            k = share_bits(rng, &k, b);
                        }
                        out.insert(k);
                    }
                }
            }
            3 => {
                // chain: neighbours of the base and of each other
                let mut k = base;
                for _ in 0..rng.range(2, 6) {
                    out.insert(k);
                    k = if rng.chance(1, 2) { succ(&k) } else { flip(&k, 255 - rng.below(8)) };
                }
            }
            4 => {
                // relatives of an existing key
                let v: Vec<K> = out.iter().copied().collect();
                let k = if v.is_empty() { base } else { *rng.pick(&v) };
                let d = gen_depth(rng);
                out.insert(k);
                out.insert(flip(&k, d));
            }
            _ => {
                // dense at the top: small first bytes
                let mut k = [0u8; 32];
                k[0] = rng.byte() & 0x33;
                k[31] = rng.byte() & 3;
                out.insert(k);
            }
        }
    }
    let mut v: Vec<K> = out.into_iter().collect();
    rng.shuffle(&mut v);
    v.truncate(n.max(1));
    v
}

/// Keys to ask about that are mostly not in the universe.
pub fn probe_key(rng: &mut Rng, keys: &[K]) -> K {
    if keys.is_empty() || rng.chance(1, 10) {
        return match rng.below(3) {
            0 => [0u8; 32],
            1 => [255u8; 32],
            _ => rng.b32(),
        };
    }
    let k = *rng.pick(keys);
    match rng.below(6) {
        0 => succ(&k),
        1 => pred(&k),
        2 => {
            let d = gen_depth(rng);
            flip(&k, d)
        }
        3 => {
            let d = gen_depth(rng);
            share_bits(rng, &k, d)
        }
        _ => k,
    }
}

pub fn gen_value(rng: &mut Rng) -> V {
    if rng.chance(1, 500) {
        let n = *rng.pick(&[1000usize, 1024, 4096, 65535, 65536, 70000]);
        return rng.bytes(n);
    }
    match rng.below(10) {
        0 => vec![],
        1 => vec![rng.byte() & 1],
        2 => {
            let n = *rng.pick(&[31usize, 32, 33, 55, 56, 64, 255, 256, 300]);
            rng.bytes(n)
        }
        3 => vec![7, 7],
        _ => {
            let n = rng.range(1, 12);
            rng.bytes(n)
        }
    }
}

pub fn vh<H: SimpleHasher>(v: &[u8]) -> [u8; 32] {
    H::hash(v)
}
pub fn pairs<H: SimpleHasher>(m: &Map) -> Vec<(K, [u8; 32])> {
    m.iter().map(|(k, v)| (*k, vh::<H>(v))).collect()
}
pub fn apply_set(m: &mut Map, s: &Set) {
    for (k, v) in s {
        match v {
            Some(v) => {
                m.insert(*k, v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    /// no deletions
    Grow,
    Normal,
    Churn,
}

pub fn gen_set(rng: &mut Rng, cur: &Map, keys: &[K], mix: Mix, max: usize) -> Set {
    let mut s: Set = vec![];
    if mix != Mix::Grow {
        if rng.chance(1, 14) {
            return s;
        }
        if rng.chance(1, 25) && cur.len() < 80 {
            // delete everything, in random order, sometimes re-inserting something
            let mut ks: Vec<K> = cur.keys().copied().collect();
            rng.shuffle(&mut ks);
            s.extend(ks.iter().map(|k| (*k, None)));
            if rng.chance(1, 3) {
                s.push((*rng.pick(keys), Some(gen_value(rng))));
            }
            return s;
        }
    }
    let n = if rng.chance(1, 3) { 1 } else { rng.range(1, max) };
    for _ in 0..n {
        let k = if !s.is_empty() && rng.chance(1, 8) { s[rng.below(s.len())].0 } else { *rng.pick(keys) };
        let del = match mix {
            Mix::Grow => false,
            Mix::Normal => rng.chance(1, 4),
            Mix::Churn => rng.chance(1, 2),
        };
        if del {
            let k = if !cur.is_empty() && rng.chance(3, 4) {
                *cur.keys().nth(rng.below(cur.len())).unwrap()
            } else {
                k
            };
            s.push((k, None));
        } else if rng.chance(1, 10) && cur.contains_key(&k) {
            s.push((k, Some(cur[&k].clone())));
        } else {
            s.push((k, Some(gen_value(rng))));
        }
    }
    s
}

// ---------------------------------------------------------------- the world

#[derive(Clone)]
pub struct Snap {
    pub map: Map,
    pub pairs: Vec<(K, [u8; 32])>,
    pub want_root: [u8; 32],
    pub got_root: [u8; 32],
}

pub struct World<S: TStore, H: SimpleHasher> {
    pub store: Arc<S>,
    pub tree: JellyfishMerkleTree<S, H>,
    pub first: u64,
    pub snaps: Vec<Snap>,
    pub cur: Map,
    pub keys: Vec<K>,
    pub mix: Mix,
    pub max_set: usize,
    pub migration: bool,
    /// highest version that wrote a value
    pub last_write: u64,
}

pub fn kset(s: &Set) -> Vec<(KeyHash, Option<OwnedValue>)> {
    s.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect()
}

pub fn gen_first(rng: &mut Rng) -> u64 {
    match rng.below(9) {
        0 => 1,
        1 => 5,
        2 => u32::MAX as u64 - 2,
        3 => 1 << 40,
        4 => u64::MAX - 2000,
        // crosses a power of two early
        5 => (1u64 << rng.range(3, 63)) - rng.range(1, 5) as u64,
        _ => 0,
    }
}

pub fn new_tree<S: TStore, H: SimpleHasher>(store: Arc<S>, migration: bool) -> JellyfishMerkleTree<S, H> {
    if migration {
        JellyfishMerkleTree::new(store)
    } else {
        JellyfishMerkleTree::new_migration(store, false)
    }
}

impl<S: TStore, H: SimpleHasher> World<S, H> {
    pub fn new(c: &mut Case, store: S) -> Self {
        let rng = &mut c.rng;
        let (n, max_set) = match rng.below(10) {
            // now and then a big tree
            _ if rng.chance(1, 120) => (rng.range(150, 500), 300),
            0..=3 => (rng.range(1, 6), 4),
            4..=7 => (rng.range(4, 24), 8),
            8 => (rng.range(20, 60), 30),
            _ => {
                if c.thorough {
                    (rng.range(50, 300), 150)
                } else {
                    (rng.range(30, 90), 60)
                }
            }
        };
        let mut keys = gen_keys(rng, n);
        if max_set >= 300 && rng.chance(1, 2) {
            // hundreds of keys below one node
            let base = rng.b32();
            let d = rng.range(4, 24);
            keys = (0..rng.range(n, 2 * n)).map(|_| share_bits(rng, &base, d)).collect();
            keys.extend((0..4).map(|_| rng.b32()));
            keys.sort();
            keys.dedup();
        }
        let mix = *rng.pick(&[Mix::Grow, Mix::Normal, Mix::Normal, Mix::Churn]);
        let first = gen_first(rng);
        let store = Arc::new(store);
        let w = World {
            tree: new_tree(store.clone(), true),
            store,
            first,
            snaps: vec![],
            cur: Map::new(),
            keys,
            mix,
            max_set,
            migration: true,
            last_write: 0,
        };
        c.op(|| format!("first version {first}, key universe:"));
        for k in &w.keys {
            c.op(|| format!("  {}", hx(k)));
        }
        w
    }
    pub fn next_version(&self) -> u64 {
        self.first + self.snaps.len() as u64
    }
    pub fn gen(&self, c: &mut Case) -> Set {
        gen_set(&mut c.rng, &self.cur, &self.keys, self.mix, self.max_set)
    }
    /// Computes (without applying) the update for the sets as the given interface does.
    pub fn compute(
        &self,
        c: &mut Case,
        sets: &[Set],
        batch_api: bool,
    ) -> R<(Vec<[u8; 32]>, TreeUpdateBatch)> {
        let v = self.next_version();
        let tree = new_tree::<S, H>(self.store.clone(), self.migration);
        compute_on::<S, H>(c, &tree, sets, v, batch_api)
    }
    pub fn record(&mut self, sets: &[Set], roots: &[[u8; 32]]) -> R {
        chk!(roots.len() == sets.len(), "root-count", "{} roots for {} sets", roots.len(), sets.len());
        for (s, r) in sets.iter().zip(roots) {
            if !s.is_empty() {
                self.last_write = self.next_version();
            }
            apply_set(&mut self.cur, s);
            let p = pairs::<H>(&self.cur);
            self.snaps.push(Snap {
                map: self.cur.clone(),
                want_root: smt::root(&p),
                pairs: p,
                got_root: *r,
            });
        }
        Ok(())
    }
    /// Can the batch interface take these sets here? (non-empty insertions onto an existing
    /// version or the genesis)
    pub fn batch_ok(&self, sets: &[Set]) -> bool {
        (!self.snaps.is_empty() || self.first == 0)
            && sets.iter().all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some()))
    }
    pub fn gen_group(&self, c: &mut Case) -> Vec<Set> {
        let n = match c.rng.below(80) {
            0 if self.max_set <= 20 => c.rng.range(5, 20),
            1..=59 => 1,
            _ => c.rng.range(2, 4),
        };
        let mut cur = self.cur.clone();
        let mut sets = vec![];
        for _ in 0..n {
            let s = gen_set(&mut c.rng, &cur, &self.keys, self.mix, self.max_set);
            apply_set(&mut cur, &s);
            sets.push(s);
        }
        sets
    }
    /// One commit of one or several versions through a random interface.
    pub fn step(&mut self, c: &mut Case) -> R {
        let sets = self.gen_group(c);
        let batch = self.batch_ok(&sets) && c.rng.chance(1, 2);
        let (roots, b) = self.compute(c, &sets, batch)?;
        log_sets(c, self.next_version(), &sets, batch);
        let st = self.store.clone();
        ok("apply", move || st.apply(b))?;
        self.record(&sets, &roots)?;
        c.count("versions_committed", sets.len() as u64);
        c.count("writes", sets.iter().map(|s| s.len() as u64).sum());
        for s in &sets {
            if s.is_empty() {
                c.count("empty_sets", 1);
            }
            if s.iter().any(|(_, v)| v.is_none()) {
                c.count("sets_with_deletions", 1);
            }
        }
        if self.cur.is_empty() {
            c.count("emptied_trees", 1);
        }
        let r = self.snaps.last().unwrap().want_root;
        c.print_bytes(&r);
        if self.snaps.len() >= 2 && self.snaps.iter().any(|s| s.map.len() >= 2) {
            c.nontrivial = true;
        }
        Ok(())
    }
    pub fn steps(&mut self, c: &mut Case) -> usize {
        if self.max_set > 20 {
            c.rng.range(1, 5)
        } else if c.rng.chance(1, 60) {
            // now and then a long history
            if c.rng.chance(1, 8) {
                // one of many more versions, of not too many keys
                let m = if self.keys.len() <= 6 { 280 } else { 110 };
                c.rng.range(60, m)
            } else {
                c.rng.range(20, 60)
            }
        } else {
            c.rng.range(1, 14)
        }
    }
    pub fn run(&mut self, c: &mut Case) -> R {
        for _ in 0..self.steps(c) {
            self.step(c)?;
        }
        Ok(())
    }
    /// A random committed version (biased to the ends); index into snaps.
    pub fn pick_version(&self, rng: &mut Rng) -> usize {
        match rng.below(4) {
            0 => self.snaps.len() - 1,
            _ => rng.below(self.snaps.len()),
        }
    }
}

pub fn compute_on<S: TStore, H: SimpleHasher>(
    c: &mut Case,
    tree: &JellyfishMerkleTree<S, H>,
    sets: &[Set],
    v: u64,
    batch_api: bool,
) -> R<(Vec<[u8; 32]>, TreeUpdateBatch)> {
    let (roots, b) = if batch_api {
        let s: Vec<Vec<(KeyHash, OwnedValue)>> = sets
            .iter()
            .map(|s| s.iter().map(|(k, v)| (KeyHash(*k), v.clone().unwrap())).collect())
            .collect();
        c.count("via_batch_interface", 1);
        ok("batch_put_value_sets", || tree.batch_put_value_sets(s, None, v))?
    } else if sets.len() == 1 && c.rng.chance(1, 2) {
        let s = kset(&sets[0]);
        c.count("via_put_value_set", 1);
        let (r, b) = ok("put_value_set", || tree.put_value_set(s, v))?;
        (vec![r], b)
    } else {
        let s: Vec<_> = sets.iter().map(kset).collect();
        c.count("via_put_value_sets", 1);
        ok("put_value_sets", || tree.put_value_sets(s, v))?
    };
    Ok((roots.into_iter().map(|r| r.0).collect(), b))
}

pub fn log_sets(c: &mut Case, v: u64, sets: &[Set], batch: bool) {
    if !c.logging {
        return;
    }
    for (i, s) in sets.iter().enumerate() {
        c.op(|| format!("version {} (batch interface: {batch}, group {}/{}):", v + i as u64, i + 1, sets.len()));
        for (k, x) in s {
            c.op(|| match x {
                Some(x) => format!("  put {} = {}", hx(k), hx(x)),
                None => format!("  del {}", hx(k)),
            });
        }
    }
}

pub fn shash(h: [u8; 32]) -> ValueHash {
    ValueHash(h)
}

pub fn root_mismatch(ver: u64, got: &[u8; 32], want: &[u8; 32]) -> Viol {
    Viol { sig: "root".into(), msg: format!("root at version {ver} is {} but must be {}", hx(got), hx(want)) }
}

/// Drains an iterator; stops at the first error.
pub fn drain<I>(it: I, limit: usize) -> R<(Vec<(K, V)>, Option<String>)>
where
    I: Iterator<Item = anyhow::Result<(KeyHash, OwnedValue)>>,
{
    let mut out = vec![];
    for x in it {
        match x {
            Ok((k, v)) => out.push((k.0, v)),
            Err(e) => return Ok((out, Some(format!("{e:#}")))),
        }
        if out.len() > limit {
            vio!("iter-endless", "iteration yields more than the {limit} live pairs");
        }
    }
    Ok((out, None))
}

pub const BUDGET: u64 = 200_000;
