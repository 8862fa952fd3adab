//! C28: CBOR items, trees, certificates, principal ranges and string lists.
use crate::term::*;
use crate::util::*;
use ic_cbor::{
    parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CborHashTree, CborNegativeInt, CborUnsignedInt, CborValue,
    CertificateToCbor, HashTreeToCbor,
};
use ic_certification::{Certificate, HashTree};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::borrow::Cow;

/// A CBOR item to be encoded in one of several ways.
#[derive(Clone, Debug)]
pub enum Item {
    Int(u64),
    Neg(u64),
    Bytes(Vec<u8>),
    Text(Vec<u8>),
    Arr(Vec<Item>),
    Map(Vec<(Item, Item)>),
    Tag(u64, Box<Item>),
    Raw(Vec<u8>),
}
use Item::*;

fn head(out: &mut Vec<u8>, major: u8, n: u64, wide: u32) {
    let least = if n < 24 {
        0
    } else if n < 256 {
        1
    } else if n < 65536 {
        2
    } else if n < 1 << 32 {
        3
    } else {
        4
    };
    let m = major << 5;
    match least.max(wide) {
        0 => out.push(m | n as u8),
        1 => out.extend([m | 24, n as u8]),
        2 => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        3 => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}

impl Item {
    /// `odd`: how often (percent) a head is longer than necessary.
    pub fn write(&self, r: &mut R, odd: u32, out: &mut Vec<u8>) {
        let w = if odd > 0 && chance(r, odd) { r.gen_range(1..5) } else { 0 };
        match self {
            Int(n) => head(out, 0, *n, w),
            Neg(n) => head(out, 1, *n, w),
            Bytes(b) => {
                head(out, 2, b.len() as u64, w);
                out.extend(b)
            }
            Text(b) => {
                head(out, 3, b.len() as u64, w);
                out.extend(b)
            }
            Arr(a) => {
                head(out, 4, a.len() as u64, w);
                a.iter().for_each(|x| x.write(r, odd, out))
            }
            Map(a) => {
                head(out, 5, a.len() as u64, w);
                a.iter().for_each(|(k, v)| {
                    k.write(r, odd, out);
                    v.write(r, odd, out)
                })
            }
            Tag(t, x) => {
                head(out, 6, *t, w);
                x.write(r, odd, out)
            }
            Raw(b) => out.extend(b),
        }
    }
    fn nodes(&mut self) -> Vec<&mut Item> {
        let mut todo: Vec<*mut Item> = vec![self];
        let mut all = vec![];
        while let Some(p) = todo.pop() {
            all.push(p);
            // SAFETY: every node is listed once; only one of the references is used below
            match unsafe { &mut *p } {
                Arr(a) => todo.extend(a.iter_mut().map(|x| x as *mut Item)),
                Map(a) => a.iter_mut().for_each(|(k, v)| {
                    todo.push(k);
                    todo.push(v)
                }),
                Tag(_, x) => todo.push(&mut **x),
                _ => {}
            }
        }
        all.into_iter().map(|p| unsafe { &mut *p }).collect()
    }
    fn spoil(&mut self, r: &mut R) {
        let some = any(r, 1);
        let mut ns = self.nodes();
        let k = r.gen_range(0..ns.len());
        let n: &mut Item = ns.swap_remove(k);
        match r.gen_range(0..9) {
            0 => *n = some,
            1 => {
                let x = n.clone();
                *n = Tag(r.gen_range(0..60000), Box::new(x))
            }
            _ => match n {
                Int(v) => *n = if chance(r, 50) { Int(r.gen_range(0..6)) } else { Bytes(vec![*v as u8]) },
                Neg(v) => *n = Int(*v),
                Bytes(b) => match r.gen_range(0..4) {
                    0 => *n = Text(b.clone()),
                    1 => {
                        b.pop();
                    }
                    2 => b.push(0),
                    _ => *n = Arr(b.iter().take(20).map(|x| Int(*x as u64)).collect()),
                },
                Text(b) => match r.gen_range(0..4) {
                    0 => *n = Bytes(b.clone()),
                    1 => b.push(0xff),
                    2 => b.make_ascii_uppercase(),
                    _ => {
                        b.pop();
                    }
                },
                Arr(a) => match r.gen_range(0..4) {
                    0 => {
                        a.pop();
                    }
                    1 => a.push(some),
                    2 => a.reverse(),
                    _ => *n = Map(a.iter().map(|x| (Text(b"k".to_vec()), x.clone())).collect()),
                },
                Map(a) => match r.gen_range(0..6) {
                    0 => {
                        if !a.is_empty() {
                            let k = r.gen_range(0..a.len());
                            a.remove(k);
                        }
                    }
                    1 => {
                        if !a.is_empty() {
                            let k = r.gen_range(0..a.len());
                            let mut again = a[k].clone();
                            if chance(r, 50) {
                                again.1 = some
                            }
                            let at = r.gen_range(0..=a.len());
                            a.insert(at, again)
                        }
                    }
                    2 => a.push((Text(b"other".to_vec()), some)),
                    3 => a.shuffle(r),
                    4 => *n = Arr(a.iter().map(|x| x.1.clone()).collect()),
                    _ => {
                        if let Some(x) = a.first_mut() {
                            x.0 = some
                        }
                    }
                },
                Tag(_, x) => *n = (**x).clone(),
                Raw(_) => {}
            },
        }
    }
}

pub fn any(r: &mut R, depth: u32) -> Item {
    let n = length(r, &[0usize, 1, 2, 3, 23, 24, 30]);
    match r.gen_range(0..if depth > 0 { 12 } else { 9 }) {
        0 | 1 => Int(*pick(r, &[0, 1, 2, 3, 4, 5, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX])),
        2 => Neg(*pick(r, &[0, 4, 23, 24, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, u32::MAX as u64, (1 << 63) - 1, 1 << 63, u64::MAX])),
        3 | 4 => Bytes(bytes(r, n)),
        5 | 6 => if chance(r, 5) {
            Text("\u{e9}x".repeat(n).into_bytes())
        } else {
            Text(pick(r, &["", "a", "tree", "http_expr", "\u{e9}", "<$>"]).as_bytes().to_vec())
        },
        7 => Raw(vec![*pick(r, &[0xe0u8, 0xf4, 0xf5, 0xf6, 0xf7, 0xff, 0x1c, 0x5f, 0x9f, 0xbf])]),
        8 => Raw(pick(r, &[vec![0xf9, 0x3c, 0x00], vec![0xf8, 0x20], vec![0x5f, 0x41, 0x61, 0xff], vec![0x9f, 0x00, 0xff], vec![0x7f, 0xff]]).clone()),
        9 | 10 => {
            let n = if chance(r, 2) { *pick(r, &[23usize, 24, 255, 256, 300]) } else { r.gen_range(0..4) };
            Arr((0..n).map(|_| any(r, if n > 4 { 0 } else { depth - 1 })).collect())
        }
        _ => {
            let n = if chance(r, 2) { *pick(r, &[23u32, 24, 64, 256]) } else { r.gen_range(0..3) };
            Map((0..n).map(|i| (Text(if n > 3 { format!("{i:03}").into_bytes() } else { vec![b'a' + i as u8] }), any(r, if n > 3 { 0 } else { depth - 1 }))).collect())
        }
    }
}

pub fn tree_item(t: &Term) -> Item {
    match t {
        Term::E => Arr(vec![Int(0)]),
        Term::F(a, b) => Arr(vec![Int(1), tree_item(a), tree_item(b)]),
        Term::L(l, t) => Arr(vec![Int(2), Bytes(l.clone()), tree_item(t)]),
        Term::V(b) => Arr(vec![Int(3), Bytes(b.clone())]),
        Term::P(h) => Arr(vec![Int(4), Bytes(h.to_vec())]),
    }
}

fn small_tree(r: &mut R, depth: u32) -> Term {
    let n = length(r, &[0usize, 1, 2, 24, 31, 32, 33]);
    match r.gen_range(0..if depth > 0 { 9 } else { 3 }) {
        0 => Term::E,
        1 => val(bytes(r, n)),
        2 => Term::P(bytes(r, 32).try_into().unwrap()),
        3..=5 => f(small_tree(r, depth - 1), small_tree(r, depth - 1)),
        _ => lab(bytes(r, n), small_tree(r, depth - 1)),
    }
}

fn cert_item(r: &mut R) -> Item {
    let depth = if chance(r, 4) { 5 } else { 2 };
    let t = small_tree(r, depth);
    let (ns, ni, nc) = (length(r, &[48]), length(r, &[29]), length(r, &[9]));
    let mut m = vec![(Text(b"tree".to_vec()), tree_item(&t)), (Text(b"signature".to_vec()), Bytes(bytes(r, ns)))];
    if chance(r, 60) {
        let mut d = vec![(Text(b"subnet_id".to_vec()), Bytes(bytes(r, ni))), (Text(b"certificate".to_vec()), Bytes(bytes(r, nc)))];
        if chance(r, 20) {
            d.reverse()
        }
        m.push((Text(b"delegation".to_vec()), Map(d)))
    }
    if chance(r, 20) {
        m.shuffle(r)
    }
    let m = Map(m);
    if chance(r, 60) {
        Tag(55799, Box::new(m))
    } else {
        m
    }
}

fn ranges_item(r: &mut R) -> Item {
    let n = size(r, 3);
    Arr((0..n)
        .map(|_| {
            let k = |r: &mut R| *pick(r, &[0usize, 1, 10, 29, 29, 30]);
            let (a, b) = (k(r), k(r));
            Arr(vec![Bytes(bytes(r, a)), Bytes(bytes(r, b))])
        })
        .collect())
}

fn strings_item(r: &mut R) -> Item {
    let n = *pick(r, &[0usize, 1, 2, 3, 5, 24]) + if chance(r, 2) { 250 } else { 0 };
    Arr((0..n)
        .map(|_| Text(pick(r, &["", "http_expr", "a", "<$>", "<*>", "\u{e9}\u{20ac}\u{1f600}", "a longer string than the others"]).as_bytes().to_vec()))
        .collect())
}

fn out<T>(f: impl FnOnce() -> Result<T, ()>, show: impl FnOnce(T) -> Value) -> Value {
    match guard(f) {
        Ok(Ok(x)) => show(x),
        Ok(Err(())) => json!(["err"]),
        Err(_) => json!(["panic"]),
    }
}

fn item_json(x: &CborValue) -> Value {
    let int = |n: u64, short: bool| json!(["int", format!("{n:016x}"), short]);
    match x {
        CborValue::Unsigned(n) => match n {
            CborUnsignedInt::UInt8(n) => int(*n as u64, true),
            CborUnsignedInt::UInt16(n) => int(*n as u64, false),
            CborUnsignedInt::UInt32(n) => int(*n as u64, false),
            CborUnsignedInt::UInt64(n) => int(*n, false),
        },
        CborValue::Signed(n) => {
            let v: i128 = match n {
                CborNegativeInt::Int8(n) => *n as i128,
                CborNegativeInt::Int16(n) => *n as i128,
                CborNegativeInt::Int32(n) => *n as i128,
                CborNegativeInt::Int64(n) => *n as i128,
            };
            json!(["neg", if v < 0 { format!("{:016x}", -1 - v) } else { format!("+{v}") }])
        }
        CborValue::ByteString(b) => json!(["str", hx(b)]),
        CborValue::Array(a) => json!(["arr", a.iter().map(item_json).collect::<Vec<_>>()]),
        CborValue::Map(m) => json!(["map", m.iter().map(|(k, v)| json!([hx(k), item_json(v)])).collect::<Vec<_>>()]),
        CborValue::HashTree(t) => int(
            match t {
                CborHashTree::Empty => 0,
                CborHashTree::Fork => 1,
                CborHashTree::Labelled => 2,
                CborHashTree::Leaf => 3,
                CborHashTree::Pruned => 4,
            },
            true,
        ),
    }
}

fn tree_json(t: HashTree) -> Value {
    json!(["ok", Term::from_lib(&t).json()])
}
fn cert_json(c: Certificate) -> Value {
    let d = c.delegation.map(|d| json!([hx(d.subnet_id), hx(d.certificate)])).unwrap_or(json!([]));
    json!(["ok", Term::from_lib(&c.tree).json(), hx(c.signature), d])
}

/// Everything the decoders make of some bytes.
fn observe(b: &[u8], what: &str) -> Value {
    let e = |_| ();
    let mut o = json!({"kind": "cbor", "in": hx(b),
        "item": out(|| parse_cbor(b).map_err(|_| ()), |x| item_json(&x)),
        "tree": out(|| HashTree::from_cbor(b).map_err(|_| ()), tree_json),
        "cert": out(|| Certificate::from_cbor(b).map_err(|_| ()), cert_json),
        "ranges": out(|| parse_cbor_principals_array(b).map_err(|_| ()),
            |v| json!(["ok", v.iter().map(|(a, b)| json!([hx(a.as_slice()), hx(b.as_slice())])).collect::<Vec<_>>()])),
        "strings": out(|| parse_cbor_string_array(b).map_err(|_| ()), |v| json!(["ok", v.iter().map(hx).collect::<Vec<_>>()])),
        "stree": out(|| serde_cbor::from_slice::<HashTree>(b).map_err(e), tree_json),
        "scert": out(|| serde_cbor::from_slice::<Certificate>(b).map_err(e), cert_json),
    });
    // the borrowing forms agree with the owning one
    let s2 = out(|| serde_cbor::from_slice::<ic_certification::hash_tree::HashTree<Cow<[u8]>>>(b).map_err(e), |t| json!(["ok", hx(t.digest())]));
    let s3 = out(|| serde_cbor::from_slice::<ic_certification::hash_tree::HashTree<&[u8]>>(b).map_err(e), |t| json!(["ok", hx(t.digest())]));
    o["digests"] = json!([s2, s3]);
    o["what"] = json!(what);
    o
}

/// Bytes that are part of a whole, or more than it.
fn of(mut o: Value, whole: &[u8]) -> Value {
    o["of"] = hx(whole);
    o
}

fn own(r: &mut R) -> Value {
    let depth = if chance(r, 4) { 6 } else { 3 };
    let t = small_tree(r, depth);
    let lib = t.to_lib();
    let d = if chance(r, 60) {
        Some(ic_certification::Delegation { subnet_id: bytes(r, 29), certificate: bytes(r, 7) })
    } else {
        None
    };
    let c = Certificate { tree: lib.clone(), signature: bytes(r, 48), delegation: d };
    let enc = |b: Result<Vec<u8>, serde_cbor::Error>| b.map(hx).unwrap_or(json!("error"));
    json!({"kind": "own", "tree": t.json(), "tcbor": enc(guard(|| serde_cbor::to_vec(&lib)).unwrap()),
           "cert": cert_json(c.clone()), "ccbor": enc(guard(|| serde_cbor::to_vec(&c)).unwrap()),
           "tback": out(|| serde_cbor::to_vec(&lib).map_err(|_| ()).and_then(|s| serde_cbor::from_slice::<HashTree>(&s).map_err(|_| ())), tree_json),
           "cback": out(|| serde_cbor::to_vec(&c).map_err(|_| ()).and_then(|s| serde_cbor::from_slice::<Certificate>(&s).map_err(|_| ())), cert_json)})
}

pub fn run(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut all: Vec<Value> = scen
        .par_iter()
        .map(|s| observe(&hex::decode(s["bytes"].as_str().unwrap()).unwrap(), "enumerated"))
        .collect();
    let more: Vec<Vec<Value>> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut r = rng("cbor", i as u64);
            let mut x = match r.gen_range(0..5) {
                0 => any(&mut r, 3),
                1 => tree_item(&small_tree(&mut r, 3)),
                2 => cert_item(&mut r),
                3 => ranges_item(&mut r),
                _ => strings_item(&mut r),
            };
            let odd = *pick(&mut r, &[0u32, 0, 10, 40]);
            let mut b = vec![];
            x.write(&mut r, odd, &mut b);
            let mut v = vec![observe(&b, "whole"), own(&mut r)];
            // truncated, extended, a byte changed
            for _ in 0..2 {
                let k = r.gen_range(0..b.len());
                v.push(of(observe(&b[..k], "truncated"), &b));
            }
            v.push(of(observe(&[b.clone(), bytes(&mut r, 1)].concat(), "extended"), &b));
            for _ in 0..2 {
                let mut c = b.clone();
                let k = if chance(&mut r, 50) { r.gen_range(0..c.len().min(12)) } else { r.gen_range(0..c.len()) };
                c[k] = if chance(&mut r, 50) { c[k] ^ (1 << r.gen_range(0..8)) } else { r.gen() };
                v.push(observe(&c, "changed"));
            }
            for _ in 0..3 {
                x.spoil(&mut r);
                let mut b = vec![];
                x.write(&mut r, odd, &mut b);
                v.push(observe(&b, "spoiled"));
            }
            v
        })
        .collect();
    all.extend(more.into_iter().flatten());
    all
}
