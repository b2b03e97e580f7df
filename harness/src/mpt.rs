//! Reference Ethereum Merkle-Patricia trie: root hash, node set, proofs and a strict verifier,
//! written from the yellow paper. Independent of the rlp crate.
use crate::keccak::keccak256;
use std::collections::BTreeMap;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

pub fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return vec![b[0]];
    }
    let mut o = rlp_head(0x80, b.len());
    o.extend_from_slice(b);
    o
}
fn rlp_head(base: u8, n: usize) -> Vec<u8> {
    if n < 56 {
        vec![base + n as u8]
    } else {
        let be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut o = vec![base + 55 + be.len() as u8];
        o.extend(be);
        o
    }
}
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = items.concat();
    let mut o = rlp_head(0xc0, body.len());
    o.extend(body);
    o
}

pub fn nibbles(k: &[u8]) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
pub fn hp(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut o = vec![];
    let f = if leaf { 2u8 } else { 0 };
    let rest = if n.len() % 2 == 1 {
        o.push(((f + 1) << 4) | n[0]);
        &n[1..]
    } else {
        o.push(f << 4);
        n
    };
    for p in rest.chunks(2) {
        o.push((p[0] << 4) | p[1]);
    }
    o
}

type Pair<'a> = (Vec<u8>, &'a [u8]);

/// Where encoded nodes go: every stored (>= 32 byte) node, and the nodes on a path.
#[derive(Default)]
pub struct Out {
    pub stored: BTreeMap<[u8; 32], Vec<u8>>,
}

fn refer(enc: Vec<u8>, out: &mut Out) -> Vec<u8> {
    if enc.len() < 32 {
        enc
    } else {
        let h = keccak256(&enc);
        out.stored.insert(h, enc);
        rlp_str(&h)
    }
}

/// Encodes the node for the given sorted pairs whose paths share `depth` nibbles.
fn node(p: &[Pair], depth: usize, out: &mut Out) -> Vec<u8> {
    if p.is_empty() {
        return vec![0x80];
    }
    if p.len() == 1 {
        return rlp_list(&[rlp_str(&hp(&p[0].0[depth..], true)), rlp_str(p[0].1)]);
    }
    let first = &p[0].0;
    let last = &p[p.len() - 1].0;
    let mut cp = depth;
    while cp < first.len() && cp < last.len() && first[cp] == last[cp] {
        cp += 1;
    }
    if cp > depth {
        let child = node(p, cp, out);
        let r = refer(child, out);
        return rlp_list(&[rlp_str(&hp(&first[depth..cp], false)), r]);
    }
    let mut items = vec![];
    let mut rest = p;
    let mut value: &[u8] = &[];
    if rest[0].0.len() == depth {
        value = rest[0].1;
        rest = &rest[1..];
    }
    for x in 0..16u8 {
        let n = rest.iter().take_while(|q| q.0[depth] == x).count();
        let (a, b) = rest.split_at(n);
        rest = b;
        let c = node(a, depth + 1, out);
        items.push(refer(c, out));
    }
    items.push(rlp_str(value));
    rlp_list(&items)
}

pub struct Trie {
    pub root: [u8; 32],
    /// every node the trie needs in storage: those of 32 bytes or more, and the root
    pub nodes: BTreeMap<[u8; 32], Vec<u8>>,
}

pub fn build(m: &Map) -> Trie {
    let pairs: Vec<Pair> = m.iter().map(|(k, v)| (nibbles(k), v.as_slice())).collect();
    let mut out = Out::default();
    let enc = node(&pairs, 0, &mut out);
    let root = keccak256(&enc);
    out.stored.insert(root, enc);
    Trie { root, nodes: out.stored }
}
pub fn root(m: &Map) -> [u8; 32] {
    build(m).root
}

/// The places (nibble paths from the root) at which the trie needs stored nodes: every node with
/// its own place and the place of the node two levels above it (the root's, if there is none).
pub fn places(m: &Map) -> BTreeMap<[u8; 32], Vec<(Vec<u8>, Vec<u8>)>> {
    type Places = BTreeMap<[u8; 32], Vec<(Vec<u8>, Vec<u8>)>>;
    fn go(p: &[Pair], depth: usize, above: &[u8], above2: &[u8], out: &mut Places) -> Vec<u8> {
        let mut enc_out = Out::default();
        let enc = node(p, depth, &mut enc_out);
        if p.is_empty() {
            return enc;
        }
        let here = p[0].0[..depth].to_vec();
        if enc.len() >= 32 || depth == 0 {
            out.entry(keccak256(&enc)).or_default().push((here.clone(), above2.to_vec()));
        }
        if p.len() == 1 {
            return enc;
        }
        let (first, last) = (&p[0].0, &p[p.len() - 1].0);
        let mut cp = depth;
        while cp < first.len() && cp < last.len() && first[cp] == last[cp] {
            cp += 1;
        }
        if cp > depth {
            go(p, cp, &here, above, out);
            return enc;
        }
        let rest = if p[0].0.len() == depth { &p[1..] } else { p };
        for x in 0..16u8 {
            let a: Vec<Pair> = rest.iter().filter(|q| q.0[depth] == x).cloned().collect();
            if !a.is_empty() {
                go(&a, depth + 1, &here, above, out);
            }
        }
        enc
    }
    let pairs: Vec<Pair> = m.iter().map(|(k, v)| (nibbles(k), v.as_slice())).collect();
    let mut out = BTreeMap::new();
    go(&pairs, 0, &[], &[], &mut out);
    out
}

// ---------------------------------------------------------------- strict RLP reader and verifier

#[derive(Debug, Clone)]
pub enum Item<'a> {
    Str(&'a [u8]),
    List(Vec<(Item<'a>, &'a [u8])>),
}

fn parse(b: &[u8]) -> Option<(Item<'_>, usize)> {
    let h = *b.first()?;
    let take = |off: usize, n: usize| -> Option<&[u8]> { b.get(off..off.checked_add(n)?) };
    let long = |base: u8| -> Option<(usize, usize)> {
        let ll = (h - base) as usize;
        let lb = take(1, ll)?;
        if lb[0] == 0 || ll > 8 {
            return None;
        }
        let mut n = 0usize;
        for x in lb {
            n = n.checked_mul(256)?.checked_add(*x as usize)?;
        }
        if n < 56 {
            return None;
        }
        Some((1 + ll, n))
    };
    match h {
        0..=0x7f => Some((Item::Str(&b[..1]), 1)),
        0x80..=0xb7 => {
            let n = (h - 0x80) as usize;
            let s = take(1, n)?;
            if n == 1 && s[0] < 0x80 {
                return None;
            }
            Some((Item::Str(s), 1 + n))
        }
        0xb8..=0xbf => {
            let (o, n) = long(0xb7)?;
            Some((Item::Str(take(o, n)?), o + n))
        }
        _ => {
            let (o, n) = if h <= 0xf7 { (1, (h - 0xc0) as usize) } else { long(0xf7)? };
            let body = take(o, n)?;
            let mut items = vec![];
            let mut i = 0;
            while i < body.len() {
                let (it, used) = parse(&body[i..])?;
                items.push((it, &body[i..i + used]));
                i += used;
            }
            Some((Item::List(items), o + n))
        }
    }
}

fn unhp(c: &[u8]) -> Option<(Vec<u8>, bool)> {
    let f = *c.first()?;
    let mut n = vec![];
    let leaf = match f >> 4 {
        0 | 2 => {
            if f & 15 != 0 {
                return None;
            }
            f >> 4 == 2
        }
        1 | 3 => {
            n.push(f & 15);
            f >> 4 == 3
        }
        _ => return None,
    };
    n.extend(nibbles(&c[1..]));
    Some((n, leaf))
}

/// Walks the proof from the root. `None`: the proof does not prove anything about the key.
pub fn verify(root: &[u8; 32], key: &[u8], proof: &[Vec<u8>]) -> Option<Option<Vec<u8>>> {
    let db: BTreeMap<[u8; 32], &[u8]> = proof.iter().map(|p| (keccak256(p), p.as_slice())).collect();
    let path = nibbles(key);
    let mut at = 0;
    let mut cur: &[u8] = db.get(root)?;
    if cur == [0x80] {
        return Some(None);
    }
    loop {
        let (it, used) = parse(cur)?;
        if used != cur.len() {
            return None;
        }
        let l = match it {
            Item::List(l) => l,
            _ => return None,
        };
        let next = match l.len() {
            2 => {
                let c = match &l[0].0 {
                    Item::Str(s) => unhp(s)?,
                    _ => return None,
                };
                if c.1 {
                    let v = match &l[1].0 {
                        Item::Str(s) => s,
                        _ => return None,
                    };
                    return Some(if path[at..] == c.0[..] { Some(v.to_vec()) } else { None });
                }
                if !path[at..].starts_with(&c.0) {
                    return Some(None);
                }
                at += c.0.len();
                &l[1]
            }
            17 => {
                if at == path.len() {
                    return match &l[16].0 {
                        Item::Str(s) if s.is_empty() => Some(None),
                        Item::Str(s) => Some(Some(s.to_vec())),
                        _ => None,
                    };
                }
                at += 1;
                &l[path[at - 1] as usize]
            }
            _ => return None,
        };
        match &next.0 {
            Item::Str(s) if s.is_empty() => return Some(None),
            Item::Str(s) if s.len() == 32 => {
                let h: [u8; 32] = (*s).try_into().unwrap();
                cur = db.get(&h)?;
            }
            Item::Str(_) => return None,
            Item::List(_) => {
                if next.1.len() >= 32 {
                    return None;
                }
                cur = next.1;
            }
        }
    }
}

pub fn selftest() {
    let hex = |b: [u8; 32]| -> String { b.iter().map(|x| format!("{x:02x}")).collect() };
    let mut m = Map::new();
    assert_eq!(hex(root(&m)), "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
    for (k, v) in [("do", "verb"), ("dog", "puppy"), ("doge", "coin"), ("horse", "stallion")] {
        m.insert(k.into(), v.into());
    }
    assert_eq!(hex(root(&m)), "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84");
    m.clear();
    m.insert(b"A".to_vec(), vec![b'a'; 50]);
    assert_eq!(hex(root(&m)), "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab");
}
