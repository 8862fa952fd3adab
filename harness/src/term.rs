//! Hash trees as plain terms, independent of the library: digest, pruning, encoding.
use crate::util::*;
use ic_certification::{HashTree, HashTreeNode};
use rand::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Term {
    E,
    F(Box<Term>, Box<Term>),
    L(Vec<u8>, Box<Term>),
    V(Vec<u8>),
    P([u8; 32]),
}
use Term::*;

pub fn f(l: Term, r: Term) -> Term {
    F(Box::new(l), Box::new(r))
}
pub fn lab(b: impl AsRef<[u8]>, t: Term) -> Term {
    L(b.as_ref().to_vec(), Box::new(t))
}
pub fn val(b: impl AsRef<[u8]>) -> Term {
    V(b.as_ref().to_vec())
}

fn sep(name: &str, rest: &[&[u8]]) -> [u8; 32] {
    let mut v = vec![name.len() as u8];
    v.extend_from_slice(name.as_bytes());
    for r in rest {
        v.extend_from_slice(r);
    }
    sha(&v)
}

impl Term {
    pub fn digest(&self) -> [u8; 32] {
        match self {
            E => sep("ic-hashtree-empty", &[]),
            F(l, r) => sep("ic-hashtree-fork", &[&l.digest(), &r.digest()]),
            L(b, t) => sep("ic-hashtree-labeled", &[b, &t.digest()]),
            V(b) => sep("ic-hashtree-leaf", &[b]),
            P(h) => *h,
        }
    }

    pub fn json(&self) -> Value {
        match self {
            E => json!(["e"]),
            F(l, r) => json!(["f", l.json(), r.json()]),
            L(b, t) => json!(["l", hex::encode(b), t.json()]),
            V(b) => json!(["v", hex::encode(b)]),
            P(h) => json!(["p", hex::encode(h)]),
        }
    }

    pub fn from_json(v: &Value) -> Term {
        let a = v.as_array().unwrap();
        let h = |i: usize| hex::decode(a[i].as_str().unwrap()).unwrap();
        match a[0].as_str().unwrap() {
            "e" => E,
            "f" => f(Term::from_json(&a[1]), Term::from_json(&a[2])),
            "l" => lab(h(1), Term::from_json(&a[2])),
            "v" => V(h(1)),
            "p" => P(h(1).try_into().unwrap()),
            _ => panic!("term"),
        }
    }

    pub fn to_lib(&self) -> HashTree {
        match self {
            E => ic_certification::empty(),
            F(l, r) => ic_certification::fork(l.to_lib(), r.to_lib()),
            L(b, t) => ic_certification::labeled(b.clone(), t.to_lib()),
            V(b) => ic_certification::leaf(b.clone()),
            P(h) => ic_certification::pruned(*h),
        }
    }

    pub fn from_node(n: &HashTreeNode) -> Term {
        match n {
            HashTreeNode::Empty() => E,
            HashTreeNode::Fork(b) => f(Term::from_node(&b.0), Term::from_node(&b.1)),
            HashTreeNode::Labeled(l, t) => lab(l.as_bytes(), Term::from_node(t)),
            HashTreeNode::Leaf(v) => val(v),
            HashTreeNode::Pruned(h) => P(*h),
        }
    }

    pub fn from_lib(t: &HashTree) -> Term {
        Term::from_node(t.as_ref())
    }

    /// All paths to labels of the tree (inner and leaf paths).
    pub fn paths(&self) -> Vec<Vec<Vec<u8>>> {
        fn go(t: &Term, pre: &[Vec<u8>], out: &mut Vec<Vec<Vec<u8>>>) {
            match t {
                F(l, r) => {
                    go(l, pre, out);
                    go(r, pre, out);
                }
                L(b, t) => {
                    let mut p = pre.to_vec();
                    p.push(b.clone());
                    out.push(p.clone());
                    go(t, &p, out);
                }
                _ => {}
            }
        }
        let mut out = vec![];
        go(self, &[], &mut out);
        out
    }

    /// Replaces random subtrees by their digests.
    pub fn prune(&self, r: &mut R, pct: u32) -> Term {
        if chance(r, pct) {
            return P(self.digest());
        }
        match self {
            F(a, b) => f(a.prune(r, pct), b.prune(r, pct)),
            L(b, t) => lab(b, t.prune(r, pct)),
            t => t.clone(),
        }
    }

    /// Prunes everything that is not needed to answer the given paths.
    pub fn witness(&self, keep: &[Vec<Vec<u8>>]) -> Term {
        fn labels<'a>(t: &'a Term, out: &mut Vec<&'a [u8]>) {
            match t {
                F(l, r) => {
                    labels(l, out);
                    labels(r, out);
                }
                L(b, _) => out.push(b),
                _ => {}
            }
        }
        fn go(t: &Term, level: &[&[u8]], keep: &[Vec<Vec<u8>>]) -> Term {
            match t {
                F(l, r) => {
                    let (a, b) = (go(l, level, keep), go(r, level, keep));
                    if matches!((&a, &b), (P(_), P(_))) {
                        P(f(a, b).digest())
                    } else {
                        f(a, b)
                    }
                }
                L(b, s) => {
                    let subs: Vec<Vec<Vec<u8>>> = keep
                        .iter()
                        .filter(|k| !k.is_empty() && k[0] == *b)
                        .map(|k| k[1..].to_vec())
                        .collect();
                    if !subs.is_empty() {
                        if subs.iter().any(|k| k.is_empty()) {
                            return lab(b, (**s).clone());
                        }
                        let mut ls = vec![];
                        labels(s, &mut ls);
                        return lab(b, go(s, &ls, &subs));
                    }
                    // a neighbour of an absent key must stay visible
                    let near = keep.iter().any(|k| {
                        !k.is_empty()
                            && !level.contains(&k[0].as_slice())
                            && (level.iter().filter(|x| **x < k[0].as_slice()).max()
                                == Some(&b.as_slice())
                                || level.iter().filter(|x| **x > k[0].as_slice()).min()
                                    == Some(&b.as_slice()))
                    });
                    if near {
                        lab(b, P(s.digest()))
                    } else {
                        P(t.digest())
                    }
                }
                E => E,
                t => P(t.digest()),
            }
        }
        let mut ls = vec![];
        labels(self, &mut ls);
        go(self, &ls, keep)
    }

    // ---- encoding -------------------------------------------------------
    pub fn cbor(&self) -> Vec<u8> {
        let mut v = vec![];
        self.enc(&mut v);
        v
    }
    fn enc(&self, v: &mut Vec<u8>) {
        match self {
            E => v.extend([0x81, 0x00]),
            F(a, b) => {
                v.extend([0x83, 0x01]);
                a.enc(v);
                b.enc(v);
            }
            L(b, t) => {
                v.extend([0x83, 0x02]);
                cbor_bytes(v, b);
                t.enc(v);
            }
            V(b) => {
                v.extend([0x82, 0x03]);
                cbor_bytes(v, b);
            }
            P(h) => {
                v.extend([0x82, 0x04]);
                cbor_bytes(v, h);
            }
        }
    }
}

pub fn cbor_head(v: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        v.push(m | n as u8)
    } else if n < 256 {
        v.extend([m | 24, n as u8])
    } else if n < 65536 {
        v.push(m | 25);
        v.extend((n as u16).to_be_bytes())
    } else if n < 1 << 32 {
        v.push(m | 26);
        v.extend((n as u32).to_be_bytes())
    } else {
        v.push(m | 27);
        v.extend(n.to_be_bytes())
    }
}
pub fn cbor_bytes(v: &mut Vec<u8>, b: &[u8]) {
    cbor_head(v, 2, b.len() as u64);
    v.extend_from_slice(b);
}
pub fn cbor_text(v: &mut Vec<u8>, b: &str) {
    cbor_head(v, 3, b.len() as u64);
    v.extend_from_slice(b.as_bytes());
}

/// A balanced-or-not fork of the given (sorted) items.
pub fn forks(r: &mut R, items: Vec<Term>) -> Term {
    match items.len() {
        0 => E,
        1 => items.into_iter().next().unwrap(),
        n => {
            let k = r.gen_range(1..n);
            let mut a = items;
            let b = a.split_off(k);
            f(forks(r, a), forks(r, b))
        }
    }
}

/// Builds a well-formed tree from a set of (path, leaf) pairs; paths that are
/// prefixes of others are dropped.
pub fn build(r: &mut R, mut entries: Vec<(Vec<Vec<u8>>, Vec<u8>)>) -> Term {
    if let Some((_, v)) = entries.iter().find(|(p, _)| p.is_empty()) {
        if entries.iter().all(|(p, _)| p.is_empty()) {
            return V(v.clone());
        }
        entries.retain(|(p, _)| !p.is_empty());
    }
    entries.sort();
    let mut items = vec![];
    let mut i = 0;
    while i < entries.len() {
        let l = entries[i].0[0].clone();
        let mut sub = vec![];
        while i < entries.len() && entries[i].0[0] == l {
            sub.push((entries[i].0[1..].to_vec(), entries[i].1.clone()));
            i += 1;
        }
        items.push(lab(l, build(r, sub)));
    }
    forks(r, items)
}

/// A random well-formed tree over a small alphabet of labels.
pub fn random(r: &mut R, labels: &[&[u8]], depth: usize, width: usize) -> Term {
    if depth == 0 || chance(r, 20) {
        return if chance(r, 12) {
            E
        } else {
            let n = length(r, &[0usize, 1, 3, 32, 33]);
            V(bytes(r, n))
        };
    }
    let n = r.gen_range(0..=width);
    let mut ls: Vec<&[u8]> = (0..n).map(|_| *pick(r, labels)).collect();
    ls.sort();
    ls.dedup();
    let items: Vec<Term> = ls
        .into_iter()
        .map(|l| lab(l, random(r, labels, depth - 1, width)))
        .collect();
    if items.is_empty() {
        return V(bytes(r, 2));
    }
    let mut t = forks(r, items);
    if chance(r, 15) {
        t = add_empty(r, t);
    }
    t
}

/// Adds an empty tree somewhere among the forks of this level.
pub fn add_empty(r: &mut R, t: Term) -> Term {
    match t {
        F(a, b) if chance(r, 60) => {
            if chance(r, 50) {
                f(add_empty(r, *a), *b)
            } else {
                f(*a, add_empty(r, *b))
            }
        }
        t => {
            if chance(r, 50) {
                f(t, E)
            } else {
                f(E, t)
            }
        }
    }
}
