//! Reference sparse Merkle tree: root, proofs and an independent verifier, straight from the
//! documented hashing rules. Works on sorted slices of (key, value hash).
use sha2::{Digest, Sha256};

pub type K = [u8; 32];
pub type H = [u8; 32];
pub const PLACEHOLDER: H = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn leaf_hash(k: &K, vh: &H) -> H {
    sha(&[b"JMT::LeafNode", k, vh])
}
pub fn inner_hash(l: &H, r: &H) -> H {
    sha(&[b"JMT::IntrnalNode", l, r])
}
pub fn bit(k: &K, i: usize) -> bool {
    (k[i / 8] >> (7 - i % 8)) & 1 == 1
}
fn split<'a>(s: &'a [(K, H)], depth: usize) -> (&'a [(K, H)], &'a [(K, H)]) {
    let i = s.partition_point(|(k, _)| !bit(k, depth));
    s.split_at(i)
}

/// Hash of the subtree at `depth` holding exactly the (sorted) pairs.
pub fn subtree(s: &[(K, H)], depth: usize) -> H {
    match s.len() {
        0 => PLACEHOLDER,
        1 => leaf_hash(&s[0].0, &s[0].1),
        _ => {
            let (l, r) = split(s, depth);
            inner_hash(&subtree(l, depth + 1), &subtree(r, depth + 1))
        }
    }
}
pub fn root(s: &[(K, H)]) -> H {
    subtree(s, 0)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proof {
    pub leaf: Option<(K, H)>,
    /// bottom first
    pub siblings: Vec<H>,
}

/// The unique verifying proof for `k`.
pub fn proof(all: &[(K, H)], k: &K) -> Proof {
    let mut s = all;
    let mut sib = vec![];
    let mut d = 0;
    while s.len() >= 2 {
        let (l, r) = split(s, d);
        if bit(k, d) {
            sib.push(subtree(l, d + 1));
            s = r;
        } else {
            sib.push(subtree(r, d + 1));
            s = l;
        }
        d += 1;
    }
    sib.reverse();
    Proof { leaf: s.first().copied(), siblings: sib }
}

/// Independent verifier.
pub fn verify(p: &Proof, root: &H, k: &K, vh: Option<&H>) -> bool {
    let n = p.siblings.len();
    if n > 256 {
        return false;
    }
    match (vh, &p.leaf) {
        (Some(v), Some((lk, lv))) => {
            if lk != k || lv != v {
                return false;
            }
        }
        (Some(_), None) => return false,
        (None, Some((lk, _))) => {
            if lk == k || (0..n).any(|i| bit(lk, i) != bit(k, i)) {
                return false;
            }
        }
        (None, None) => {}
    }
    let mut cur = match &p.leaf {
        Some((k, v)) => leaf_hash(k, v),
        None => PLACEHOLDER,
    };
    for (i, s) in p.siblings.iter().enumerate() {
        let d = n - 1 - i;
        cur = if bit(k, d) { inner_hash(s, &cur) } else { inner_hash(&cur, s) };
    }
    cur == *root
}

/// Siblings of `k`'s path that lie to its right / left, bottom first.
pub fn side_siblings(all: &[(K, H)], k: &K, right: bool) -> Vec<H> {
    let p = proof(all, k);
    let n = p.siblings.len();
    (0..n).filter(|i| bit(k, n - 1 - i) != right).map(|i| p.siblings[i]).collect()
}

/// What a verifier that knows only the pairs up to and including the last one, plus the number of
/// right siblings, takes as left siblings (bottom first).
pub fn left_from_prefix(pairs: &[(K, H)], n_right: usize) -> Vec<H> {
    let k = &pairs.last().unwrap().0;
    // left siblings at every depth where the path goes right
    let mut s = pairs;
    let mut all: Vec<(usize, H)> = vec![];
    for d in 0..256 {
        let (l, r) = split(s, d);
        if bit(k, d) {
            all.push((d, subtree(l, d + 1)));
            s = r;
        } else {
            s = l;
        }
    }
    // the depth of the path is the smallest that has the given number of right turns and every
    // non-empty left sibling
    let mut depth = all.iter().filter(|(_, h)| *h != PLACEHOLDER).map(|(d, _)| d + 1).max().unwrap_or(0);
    let mut zeros = 0;
    for d in 0..256 {
        if zeros >= n_right {
            break;
        }
        if !bit(k, d) {
            zeros += 1;
            if zeros == n_right {
                depth = depth.max(d + 1);
            }
        }
    }
    let mut v: Vec<H> = all.into_iter().filter(|(d, _)| *d < depth).map(|(_, h)| h).collect();
    v.reverse();
    v
}
