//! C12 / C13: lookups, digests and encodings of hash trees.
use crate::term::*;
use crate::util::*;
use ic_cbor::HashTreeToCbor;
use ic_certification::{HashTree, LookupResult, SubtreeLookupResult};
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

const LABELS: &[&[u8]] = &[
    b"", b"a", b"aa", b"ab", b"b", b"b\x00", b"c", b"\x00", b"\xff", b"\x7f", b"\x80", b"time",
    b"canister", b"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz",
];

fn path_json(p: &[Vec<u8>]) -> Value {
    Value::Array(p.iter().map(hx).collect())
}

fn lookups(t: &HashTree, paths: &[Vec<Vec<u8>>]) -> Value {
    Value::Array(
        paths
            .iter()
            .map(|p| {
                let v = match guard(|| match t.lookup_path(p.iter()) {
                    LookupResult::Absent => json!(["absent"]),
                    LookupResult::Unknown => json!(["unknown"]),
                    LookupResult::Error => json!(["error"]),
                    LookupResult::Found(v) => json!(["found", hex::encode(v)]),
                }) {
                    Ok(v) => v,
                    Err(_) => json!(["panic"]),
                };
                let s = match guard(|| match t.lookup_subtree(p.iter()) {
                    SubtreeLookupResult::Absent => json!(["absent"]),
                    SubtreeLookupResult::Unknown => json!(["unknown"]),
                    SubtreeLookupResult::Found(v) => json!(["found", Term::from_lib(&v).json()]),
                }) {
                    Ok(v) => v,
                    Err(_) => json!(["panic"]),
                };
                json!({"path": path_json(p), "value": v, "subtree": s})
            })
            .collect(),
    )
}

fn query_paths(r: &mut R, full: &Term, labels: &[&[u8]], n: usize) -> Vec<Vec<Vec<u8>>> {
    let present = full.paths();
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut p = if !present.is_empty() && chance(r, 75) {
            pick(r, &present).clone()
        } else {
            vec![]
        };
        match r.gen_range(0..6) {
            0 => p.push(pick(r, labels).to_vec()),
            1 => {
                p.pop();
                p.push(pick(r, labels).to_vec())
            }
            2 => {
                if let Some(l) = p.last_mut() {
                    match r.gen_range(0..3) {
                        0 => {
                            l.pop();
                        }
                        1 => l.push(0),
                        _ => {
                            if let Some(x) = l.last_mut() {
                                *x = x.wrapping_add(1)
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        out.push(p);
    }
    out
}

pub fn lookup_run(tree: &Term, full: Option<&Term>, paths: &[Vec<Vec<u8>>]) -> Value {
    let lib = tree.to_lib();
    let listed: Vec<Value> = guard(|| {
        lib.list_paths()
            .iter()
            .map(|p| Value::Array(p.iter().map(|l| hx(l.as_bytes())).collect()))
            .collect()
    })
    .unwrap_or_else(|_| vec![json!("panic")]);
    let mut o = json!({"kind": "lookup", "tree": tree.json(), "paths": listed, "lookups": lookups(&lib, paths)});
    if let Some(f) = full {
        o["full"] = f.json();
    }
    o
}

/// The digest, put together from the parts' digests.
fn parts(t: &Term) -> [u8; 32] {
    use ic_certification::hash_tree::*;
    match t {
        Term::E => empty::<Vec<u8>>().digest(),
        Term::F(a, b) => fork_hash(&parts(a), &parts(b)),
        Term::L(l, t) => labeled_hash(l, &parts(t)),
        Term::V(b) => leaf_hash(b),
        Term::P(h) => *h,
    }
}

/// The same tree, made of borrowed bytes.
fn borrowed(t: &Term) -> ic_certification::hash_tree::HashTree<&[u8]> {
    use ic_certification::hash_tree::*;
    match t {
        Term::E => empty(),
        Term::F(a, b) => fork(borrowed(a), borrowed(b)),
        Term::L(l, t) => label(Label::from_bytes(&l[..]), borrowed(t)),
        Term::V(b) => leaf(&b[..]),
        Term::P(h) => pruned_from_hex(if h[0] < 128 { hex::encode(h) } else { hex::encode_upper(h) }).unwrap(),
    }
}

pub fn digest_run(tree: &Term, full: Option<&Term>) -> Value {
    let lib = tree.to_lib();
    let enc = serde_cbor::to_vec(&lib).map_err(|e| e.to_string());
    let own = tree.cbor();
    let show = |x: Result<Result<HashTree, String>, String>| match x {
        Ok(Ok(t)) => Term::from_lib(&t).json(),
        Ok(Err(_)) => json!(["error"]),
        Err(_) => json!(["panic"]),
    };
    let e2 = enc.clone().unwrap_or_default();
    let mut o = json!({
        "kind": "digest",
        "tree": tree.json(),
        "digest": guard(|| hex::encode(lib.digest())).unwrap_or("panic".into()),
        "parts": guard(|| hex::encode(parts(tree))).unwrap_or("panic".into()),
        "borrowed": guard(|| hex::encode(borrowed(tree).digest())).unwrap_or("panic".into()),
        "constructed": Term::from_lib(&lib).json(),
        "encoded": hex::encode(&e2),
        "expected_encoding": hex::encode(&own),
        "decoded_serde": show(guard(|| serde_cbor::from_slice::<HashTree>(&own).map_err(|e| e.to_string()))),
        "decoded_cbor": show(guard(|| HashTree::from_cbor(&own).map_err(|e| e.to_string()))),
        "decoded_own": show(guard(|| HashTree::from_cbor(&e2).map_err(|e| e.to_string()))),
    });
    if let Some(f) = full {
        o["full"] = f.json();
    }
    o
}

pub fn pair_run(a: &Term, b: &Term) -> Value {
    let (x, y) = (a.to_lib(), b.to_lib());
    json!({"kind": "pair", "a": a.json(), "b": b.json(),
           "da": hex::encode(x.digest()), "db": hex::encode(y.digest()), "equal": x == y})
}

/// A tree that is deep, wide or has long labels.
fn large(r: &mut R, labels: &[&[u8]]) -> Term {
    match r.gen_range(0..3) {
        0 => {
            // one long path, with a few neighbours on the way
            let mut t = random(r, labels, 1, 3);
            for _ in 0..*pick(r, &[8usize, 13, 20, 40]) {
                let mut ls = vec![pick(r, labels).to_vec()];
                if chance(r, 40) {
                    ls.push(pick(r, labels).to_vec())
                }
                ls.sort();
                ls.dedup();
                let k = r.gen_range(0..ls.len());
                let items = ls.iter().enumerate().map(|(i, l)| lab(l, if i == k { t.clone() } else { val([i as u8]) })).collect();
                t = forks(r, items);
            }
            t
        }
        1 => {
            let n = *pick(r, &[17usize, 33, 65, 100]);
            let mut ls: Vec<Vec<u8>> = (0..n).map(|i| if i % 3 == 0 { bytes(r, 2) } else { vec![i as u8; 1 + i % 2] }).collect();
            ls.sort();
            ls.dedup();
            let items = ls.into_iter().map(|l| lab(l, random(r, labels, 1, 2))).collect();
            forks(r, items)
        }
        _ => {
            let mut ls: Vec<Vec<u8>> = (0..4).map(|_| vec![*pick(r, &[0u8, 97, 255]); *pick(r, &[31usize, 32, 33, 64, 127, 128, 255, 256, 257, 1000])]).collect();
            let last = ls[0].clone();
            ls.push([last, vec![0]].concat());
            ls.sort();
            ls.dedup();
            let items = ls.into_iter().map(|l| lab(l, random(r, labels, 2, 3))).collect();
            forks(r, items)
        }
    }
}

/// A small change of a tree: a label, leaf, kind or shape.
fn mutate(r: &mut R, t: &Term) -> Term {
    use Term::*;
    match t {
        F(a, b) => match r.gen_range(0..5) {
            0 => f((**b).clone(), (**a).clone()),
            1 => f(mutate(r, a), (**b).clone()),
            2 => f((**a).clone(), mutate(r, b)),
            3 => match &**a {
                // re-associate
                F(x, y) => f((**x).clone(), f((**y).clone(), (**b).clone())),
                _ => f((**a).clone(), f(E, (**b).clone())),
            },
            _ => (**a).clone(),
        },
        L(l, s) => match r.gen_range(0..5) {
            0 => lab([l.clone(), vec![0]].concat(), (**s).clone()),
            1 => lab(&l[..l.len().saturating_sub(1)], (**s).clone()),
            2 => (**s).clone(),
            _ => lab(l, mutate(r, s)),
        },
        V(b) => match r.gen_range(0..4) {
            0 => val([b.clone(), vec![0]].concat()),
            1 => E,
            2 => lab(b, E),
            _ => {
                let mut c = b.clone();
                if let Some(x) = c.first_mut() {
                    *x ^= 1
                } else {
                    c.push(1)
                }
                val(c)
            }
        },
        E => {
            if chance(r, 50) {
                val([])
            } else {
                f(E, E)
            }
        }
        P(_) => E,
    }
}

pub fn run(what: &str, n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .map(|s| {
            let t = Term::from_json(&s["tree"]);
            let full = s.get("full").map(Term::from_json);
            if what == "lookup" {
                let paths: Vec<Vec<Vec<u8>>> = s["paths"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| {
                        p.as_array()
                            .unwrap()
                            .iter()
                            .map(|l| hex::decode(l.as_str().unwrap()).unwrap())
                            .collect()
                    })
                    .collect();
                lookup_run(&t, full.as_ref(), &paths)
            } else {
                digest_run(&t, full.as_ref())
            }
        })
        .collect();
    let mut more: Vec<Value> = (0..n)
        .into_par_iter()
        .flat_map(|i| {
            let mut r = rng(what, i as u64);
            let k = r.gen_range(2..LABELS.len());
            let labels = &LABELS[..k];
            let depth = r.gen_range(0..=4);
            let width = r.gen_range(1..=6);
            let big = chance(&mut r, 6);
            let full = if big { large(&mut r, labels) } else { random(&mut r, labels, depth, width) };
            let pct = if big { 1 } else { *pick(&mut r, &[5u32, 15, 30, 60]) };
            let pruned = full.prune(&mut r, pct);
            if what == "lookup" {
                let paths = query_paths(&mut r, &full, labels, 12);
                let keep: Vec<_> = (0..r.gen_range(1..3))
                    .map(|_| pick(&mut r, &paths).clone())
                    .collect();
                vec![
                    lookup_run(&full, None, &paths),
                    lookup_run(&pruned, Some(&full), &paths),
                    lookup_run(&full.witness(&keep), Some(&full), &paths),
                ]
            } else {
                let m = mutate(&mut r, &full);
                vec![
                    digest_run(&full, None),
                    digest_run(&pruned, Some(&full)),
                    pair_run(&full, &m),
                    pair_run(&full, &full.clone()),
                ]
            }
        })
        .collect();
    out.append(&mut more);
    out
}
