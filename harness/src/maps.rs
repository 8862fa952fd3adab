//! C14, C15: histories of the ordered and of the nested authenticated map.
use crate::term::*;
use crate::util::*;
use ic_certification::{merge_hash_trees, AsHashTree, NestedTree, RbTree};
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

type Map = RbTree<Vec<u8>, Vec<u8>>;
type Nested = NestedTree<Vec<u8>, Vec<u8>>;

const KEYS: &[&[u8]] = &[
    b"a", b"b", b"c", b"", b"aa", b"ab", b"d", b"e", b"f", b"g", b"h", b"i", b"\x00", b"\xff", b"a\x00", b"a\xff", b"b\xff\xff", b"j",
    b"k", b"\xff\xff", b"l", b"m", b"n", b"o", b"p", b"q", b"r", b"s", b"t", b"u",
];

fn seen(f: impl FnOnce() -> Value) -> Value {
    guard(f).unwrap_or_else(|_| json!(["panic"]))
}
fn tree(f: impl FnOnce() -> ic_certification::HashTree) -> Value {
    seen(|| Term::from_lib(&f()).json())
}

#[derive(Clone, Debug)]
enum Op {
    Ins(Vec<u8>, Vec<u8>),
    Mod(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
}
impl Op {
    fn json(&self) -> Value {
        match self {
            Op::Ins(k, v) => json!(["ins", hx(k), hx(v)]),
            Op::Mod(k, v) => json!(["mod", hx(k), hx(v)]),
            Op::Del(k) => json!(["del", hx(k)]),
        }
    }
    fn from(v: &Value) -> Op {
        let h = |i: usize| hex::decode(v[i].as_str().unwrap()).unwrap();
        match v[0].as_str().unwrap() {
            "ins" => Op::Ins(h(1), h(2)),
            "mod" => Op::Mod(h(1), h(2)),
            _ => Op::Del(h(1)),
        }
    }
}

fn probe_keys(r: &mut R, m: &Map, keys: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let held: Vec<Vec<u8>> = m.iter().map(|(k, _)| k.clone()).collect();
    (0..n)
        .map(|_| {
            let mut k = if !held.is_empty() && chance(r, 50) { pick(r, &held).clone() } else { pick(r, keys).clone() };
            match r.gen_range(0..8) {
                0 => k.push(0),
                1 => {
                    k.pop();
                }
                2 => {
                    if let Some(x) = k.last_mut() {
                        *x = x.wrapping_add(1)
                    }
                }
                _ => {}
            }
            k
        })
        .collect()
}

/// How two maps compare: whether they are equal, and in what order they are, both ways.
fn ord(a: &Map, b: &Map) -> Value {
    let name = |o: std::cmp::Ordering| match o {
        std::cmp::Ordering::Less => "less",
        std::cmp::Ordering::Equal => "equal",
        std::cmp::Ordering::Greater => "greater",
    };
    let partial = a.partial_cmp(b).map(name).unwrap_or("none");
    json!([a == b, b == a, name(a.cmp(b)), name(b.cmp(a)), partial])
}

fn observe_map(r: &mut R, m: &Map, keys: &[Vec<u8>], all: bool) -> Value {
    let pairs = |it: Vec<(Vec<u8>, Vec<u8>)>| Value::Array(it.into_iter().map(|(k, v)| json!([hx(k), hx(v)])).collect());
    let probes = if all { keys.to_vec() } else { probe_keys(r, m, keys, 3) };
    let get = |k: &Vec<u8>| {
        seen(|| match m.get(k) {
            Some(v) => json!(["some", hx(v)]),
            None => json!(["none"]),
        })
    };
    let mut wit = vec![];
    for k in &probes {
        wit.push(json!({"q": "key", "a": hx(k), "b": "", "tree": tree(|| m.witness(k))}));
    }
    let ranges: Vec<(Vec<u8>, Vec<u8>)> = if all {
        keys.iter().flat_map(|a| keys.iter().filter(move |b| a <= *b).map(move |b| (a.clone(), b.clone()))).collect()
    } else {
        let mut p = probe_keys(r, m, keys, 4);
        p[..2].sort();
        p[2..].sort();
        vec![(p[0].clone(), p[1].clone()), (p[2].clone(), p[3].clone())]
    };
    for (a, b) in &ranges {
        if all || chance(r, 60) {
            wit.push(json!({"q": "range", "a": hx(a), "b": hx(b), "tree": tree(|| m.key_range(a, b))}));
        }
        if all || chance(r, 60) {
            wit.push(json!({"q": "values", "a": hx(a), "b": hx(b), "tree": tree(|| m.value_range(a, b))}));
        }
    }
    for p in if all { keys.to_vec() } else { probe_keys(r, m, keys, 2) } {
        wit.push(json!({"q": "prefix", "a": hx(&p), "b": "", "tree": tree(|| m.keys_with_prefix(&p))}));
    }
    if all || chance(r, 30) {
        wit.push(json!({"q": "keys", "a": "", "b": "", "tree": tree(|| m.keys())}));
    }
    json!({
        "root": seen(|| hx(m.root_hash())),
        "full": tree(|| m.as_hash_tree()),
        "empty": m.is_empty(),
        "iter": seen(|| pairs(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())),
        "each": seen(|| {
            let mut v = vec![];
            let c = std::cell::RefCell::new(&mut v);
            m.for_each(|k, x| c.borrow_mut().push((k.to_vec(), x.clone())));
            pairs(v)
        }),
        "same": seen(|| {
            // the same entries put in in the other order, the same but one, and the first ones only
            let all: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let again: Map = all.iter().rev().cloned().collect();
            let mut out = vec![json!([pairs(all.clone()), ord(m, &again)])];
            if !all.is_empty() {
                let mut o = all.clone();
                let i = r.gen_range(0..o.len());
                if chance(r, 50) { o[i].1.push(0) } else { o[i].0.push(0xff) }
                o.sort();
                o.dedup_by(|a, b| a.0 == b.0);
                out.push(json!([pairs(o.clone()), ord(m, &o.into_iter().collect())]));
                let o = all[..i].to_vec();
                out.push(json!([pairs(o.clone()), ord(m, &o.into_iter().collect())]));
            }
            Value::Array(out)
        }),
        "gets": probes.iter().map(|k| json!({"key": hx(k), "got": get(k)})).collect::<Vec<_>>(),
        "wit": wit,
    })
}

/// What is observed: everything after the last step, or samples after every so many steps.
#[derive(Clone, Copy)]
enum See {
    Last,
    Every(usize),
}
impl See {
    fn at(self, i: usize, n: usize) -> bool {
        i + 1 == n || matches!(self, See::Every(k) if i % k == k - 1)
    }
}

fn map_history(r: &mut R, ops: &[Op], keys: &[Vec<u8>], see: See) -> Value {
    let mut m: Map = RbTree::new();
    let mut steps = vec![];
    for (i, op) in ops.iter().enumerate() {
        let bad = guard(|| match op.clone() {
            Op::Ins(k, v) => m.insert(k, v),
            Op::Mod(k, v) => m.modify(&k, |x| *x = v),
            Op::Del(k) => m.delete(&k),
        })
        .is_err();
        let mut o = if bad {
            json!({"bad": true})
        } else if !see.at(i, ops.len()) {
            json!({"bad": false})
        } else {
            observe_map(r, &m, keys, matches!(see, See::Last))
        };
        o["op"] = op.json();
        steps.push(o);
        if bad {
            break;
        }
    }
    json!({"kind": "map", "steps": steps})
}

fn random_ops(r: &mut R, large: bool) -> (Vec<Op>, Vec<Vec<u8>>) {
    let mut nk = *pick(r, &[3usize, 6, 10, 18, 30]);
    let mut keys: Vec<Vec<u8>> = KEYS.iter().map(|k| k.to_vec()).collect();
    if large {
        nk = *pick(r, &[40usize, 70, 130]);
        while keys.len() < nk {
            let n = *pick(r, &[1usize, 2, 3, 31, 32, 33, 64, 65, 255, 256, 300]);
            let mut k = if chance(r, 30) { pick(r, &keys).clone() } else { vec![] };
            k.extend(bytes(r, n));
            keys.push(k)
        }
    }
    if chance(r, 60) {
        use rand::seq::SliceRandom;
        keys.shuffle(r);
    }
    keys.truncate(nk);
    let mut ops = vec![];
    let grow = r.gen_range(0..=nk);
    for k in keys.iter().take(grow) {
        ops.push(Op::Ins(k.clone(), bytes(r, 1)));
    }
    let m = r.gen_range(1..=nk.max(4));
    let del = *pick(r, &[30, 50, 80]);
    for _ in 0..m {
        let k = pick(r, &keys).clone();
        ops.push(if chance(r, del) {
            Op::Del(k)
        } else if chance(r, 60) {
            let n = length(r, &[0usize, 1, 32]);
            Op::Ins(k, bytes(r, n))
        } else {
            Op::Mod(k, bytes(r, 2))
        });
    }
    (ops, keys)
}

pub fn run_map(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("map-scen", i as u64);
            let ops: Vec<Op> = s["ops"].as_array().unwrap().iter().map(Op::from).collect();
            let keys: Vec<Vec<u8>> =
                s["probes"].as_array().unwrap().iter().map(|k| hex::decode(k.as_str().unwrap()).unwrap()).collect();
            map_history(&mut r, &ops, &keys, See::Last)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("map", i as u64);
        let large = i % 25 == 24;
        let (ops, keys) = random_ops(&mut r, large);
        map_history(&mut r, &ops, &keys, See::Every(if large { 30 } else { 1 }))
    }));
    out
}

// ---- nested --------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Nop {
    Ins(Vec<Vec<u8>>, Vec<u8>),
    Del(Vec<Vec<u8>>),
    Clear,
}
fn path_json(p: &[Vec<u8>]) -> Value {
    Value::Array(p.iter().map(hx).collect())
}
fn path_from(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().unwrap().iter().map(|k| hex::decode(k.as_str().unwrap()).unwrap()).collect()
}
impl Nop {
    fn json(&self) -> Value {
        match self {
            Nop::Ins(p, v) => json!(["ins", path_json(p), hx(v)]),
            Nop::Del(p) => json!(["del", path_json(p)]),
            Nop::Clear => json!(["clear"]),
        }
    }
    fn from(v: &Value) -> Nop {
        match v[0].as_str().unwrap() {
            "ins" => Nop::Ins(path_from(&v[1]), hex::decode(v[2].as_str().unwrap()).unwrap()),
            "del" => Nop::Del(path_from(&v[1])),
            _ => Nop::Clear,
        }
    }
}

fn observe_nested(r: &mut R, t: &Nested, probes: &[Vec<Vec<u8>>]) -> Value {
    let q: Vec<Value> = probes
        .iter()
        .map(|p| {
            json!({
                "path": path_json(p),
                "got": seen(|| match t.get(p) { Some(v) => json!(["some", hx(v)]), None => json!(["none"]) }),
                "leaf": seen(|| json!(t.contains_leaf(p))),
                "has": seen(|| json!(t.contains_path(p))),
                "tree": tree(|| t.witness(p)),
            })
        })
        .collect();
    let mut merged = vec![];
    if probes.len() > 1 {
        for _ in 0..2 {
            let (a, b) = (pick(r, probes), pick(r, probes));
            merged.push(json!({"a": path_json(a), "b": path_json(b),
                "tree": tree(|| merge_hash_trees(t.witness(a), t.witness(b)))}));
        }
    }
    json!({
        "root": seen(|| hx(t.root_hash())),
        "full": tree(|| t.as_hash_tree()),
        "queries": q,
        "merged": merged,
    })
}

fn nested_history(r: &mut R, ops: &[Nop], probes: &dyn Fn(&mut R) -> Vec<Vec<Vec<u8>>>, see: See) -> Value {
    let mut t = Nested::default();
    let mut steps = vec![];
    for (i, op) in ops.iter().enumerate() {
        let bad = guard(|| match op.clone() {
            Nop::Ins(p, v) => t.insert(&p, v),
            Nop::Del(p) => t.delete(&p),
            Nop::Clear => t.clear(),
        })
        .is_err();
        let mut o = if bad {
            json!({"bad": true})
        } else if !see.at(i, ops.len()) {
            json!({"bad": false})
        } else {
            let ps = probes(r);
            observe_nested(r, &t, &ps)
        };
        o["op"] = op.json();
        steps.push(o);
        if bad {
            break;
        }
    }
    json!({"kind": "nested", "steps": steps})
}

pub fn run_nested(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("nested-scen", i as u64);
            let ops: Vec<Nop> = s["ops"].as_array().unwrap().iter().map(Nop::from).collect();
            let probes: Vec<Vec<Vec<u8>>> = s["probes"].as_array().unwrap().iter().map(path_from).collect();
            nested_history(&mut r, &ops, &|_| probes.clone(), See::Last)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("nested", i as u64);
        let large = i % 25 == 24;
        let nk = if large { *pick(&mut r, &[2usize, 3, 30]) } else { *pick(&mut r, &[2usize, 3, 5, 12]) };
        let depth = if large { *pick(&mut r, &[1usize, 2, 6, 9, 14]) } else { *pick(&mut r, &[2usize, 3, 4]) };
        let path = |r: &mut R, min: usize| -> Vec<Vec<u8>> {
            let d = r.gen_range(min..=depth);
            (0..d)
                .map(|_| {
                    let k = r.gen_range(0..nk);
                    if large && k == 1 {
                        vec![b'n'; 300]
                    } else {
                        KEYS[k].to_vec()
                    }
                })
                .collect()
        };
        let mut made: Vec<Vec<Vec<u8>>> = vec![];
        let mut ops = vec![];
        let long = if large { 120 } else { *pick(&mut r, &[6usize, 14, 30]) };
        for _ in 0..r.gen_range(1..=long) {
            ops.push(match r.gen_range(0..100) {
                0..=2 => Nop::Clear,
                3..=34 => {
                    let mut p = if !made.is_empty() && chance(&mut r, 80) { pick(&mut r, &made).clone() } else { path(&mut r, 0) };
                    if chance(&mut r, 25) {
                        p.pop();
                    } else if chance(&mut r, 15) {
                        p.push(b"a".to_vec())
                    }
                    if p.is_empty() && chance(&mut r, 80) {
                        p = path(&mut r, 1)
                    }
                    Nop::Del(p)
                }
                _ => {
                    let min = if chance(&mut r, 3) { 0 } else { 1 };
                    let p = path(&mut r, min);
                    made.push(p.clone());
                    let n = *pick(&mut r, &[0usize, 0, 1, 32]);
                    Nop::Ins(p, bytes(&mut r, n))
                }
            })
        }
        let probes = |r: &mut R| -> Vec<Vec<Vec<u8>>> {
            (0..4)
                .map(|_| {
                    let mut p = if !made.is_empty() && chance(r, 60) { pick(r, &made).clone() } else { path(r, 0) };
                    if chance(r, 20) {
                        p.pop();
                    } else if chance(r, 15) {
                        p.push(KEYS[r.gen_range(0..nk)].to_vec())
                    }
                    p
                })
                .collect()
        };
        nested_history(&mut r, &ops, &probes, See::Every(if large { 20 } else { 1 }))
    }));
    out
}
