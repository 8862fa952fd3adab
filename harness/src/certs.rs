//! C01 - C04: certificates under every kind of deviation from a valid one.
use crate::term::*;
use crate::util::*;
use crate::world::*;
use ic_cbor::CertificateToCbor;
use ic_certificate_verification::VerifyCertificate;
use ic_certification::Certificate;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

#[derive(Clone)]
pub struct Case {
    pub cert: Vec<u8>,
    pub canister: Vec<u8>,
    pub root: Vec<u8>,
    pub now: u128,
    pub offset: u128,
    pub led: Ledger,
    pub opts: Value,
}

pub fn observe(c: &Case) -> Value {
    match guard(|| {
        let Ok(cert) = Certificate::from_cbor(&c.cert) else {
            return json!(["undecodable"]);
        };
        match cert.verify(&c.canister, &c.root, &c.now, &c.offset) {
            Ok(()) => json!(["ok"]),
            Err(_) => json!(["rejected"]),
        }
    }) {
        Ok(v) => v,
        Err(_) => json!(["panic"]),
    }
}

pub fn run_json(c: &Case, outcome: Value) -> Value {
    json!({"kind": "certificate", "cert": hx(&c.cert), "canister": hx(&c.canister), "root": hx(&c.root),
           "now": c.now.to_string(), "offset": c.offset.to_string(), "signed": c.led.json(),
           "options": c.opts, "outcome": outcome})
}

/// The dimensions in which a certificate may deviate; the first value is the valid one.
pub const OPTIONS: &[(&str, &[&str])] = &[
    ("deleg", &["yes", "none", "nested", "nested_self", "garbage", "empty"]),
    ("signer", &["right", "other", "root", "subnet", "subnet2"]),
    ("domain", &["ok", "missing", "request", "shifted"]),
    ("sig", &["ok", "flip", "short", "long", "empty", "othertree", "infinity", "zero", "swap"]),
    ("tree", &["ok", "tampered", "pruned", "extra", "swapped"]),
    ("rootkey", &["ok", "other", "prefix", "short", "long", "raw", "empty", "subnet", "bitflip"]),
    ("dsigner", &["root", "other", "subnet", "subnet2"]),
    ("dsig", &["ok", "flip", "short", "empty", "othertree"]),
    ("dtree", &["ok", "tampered", "pruned_other", "pruned_subnet", "pruned_ranges", "pruned_key"]),
    ("ddomain", &["ok", "missing"]),
    (
        "ranges",
        &[
            "in", "low", "high", "below", "above", "second", "between", "shorter", "longer", "empty", "missing",
            "foreign", "malformed", "reversed", "single", "excess", "toolong", "subtree",
            "many1", "many2", "many3", "many4", "many5", "many6", "many7", "many8",
        ],
    ),
    ("skey", &["ok", "other", "missing", "prefix", "short", "foreign", "root"]),
    ("subnet", &["ok", "second", "unknown", "prefix", "empty"]),
    ("canister", &["ok", "short", "long29", "long30", "empty", "other"]),
    (
        "time",
        &[
            "now", "future_edge", "future_over", "past_edge", "past_over", "missing", "pruned", "empty", "truncated",
            "overlong", "overflow", "trailing", "subtree", "zero", "max",
        ],
    ),
    ("clock", &["normal", "zero", "max128", "max64", "small", "over64", "wide"]),
    ("offset", &["minutes", "zero", "max", "one"]),
    ("dtime", &["old", "future", "missing"]),
];

pub fn opt<'a>(o: &'a Value, k: &str) -> &'a str {
    o.get(k).and_then(|v| v.as_str()).unwrap_or_else(|| OPTIONS.iter().find(|x| x.0 == k).unwrap().1[0])
}

fn spoil(r: &mut R, how: &str, led: &mut Ledger, k: &Key, msg: &[u8], sig: Vec<u8>, other: &[u8]) -> Vec<u8> {
    match how {
        "flip" => {
            let mut s = sig;
            let i = r.gen_range(1..s.len());
            s[i] ^= 1 << r.gen_range(0..8);
            s
        }
        "short" => sig[..r.gen_range(1..48)].to_vec(),
        "long" => [sig, vec![r.gen()]].concat(),
        "empty" => vec![],
        "othertree" => led.sign(k, &[msg, b"x"].concat()),
        "infinity" => {
            let mut s = vec![0; 48];
            s[0] = 0xc0;
            s
        }
        "zero" => vec![0; 48],
        "swap" => other.to_vec(),
        _ => sig,
    }
}

fn add1(v: &[u8], d: i32) -> Vec<u8> {
    let mut v = v.to_vec();
    let mut c = d;
    for x in v.iter_mut().rev() {
        let y = *x as i32 + c;
        *x = (y & 255) as u8;
        c = y >> 8;
        if c == 0 {
            break;
        }
    }
    v
}

/// Replaces the subtree at a path by its digest (a label path; the label stays).
pub fn prune_at(t: &Term, path: &[Vec<u8>]) -> Term {
    match t {
        Term::F(a, b) => f(prune_at(a, path), prune_at(b, path)),
        Term::L(l, s) if !path.is_empty() && *l == path[0] => {
            if path.len() == 1 {
                lab(l, Term::P(s.digest()))
            } else {
                lab(l, prune_at(s, &path[1..]))
            }
        }
        t => t.clone(),
    }
}

fn tamper(r: &mut R, t: &Term, how: &str) -> Term {
    match how {
        "tampered" => match t {
            Term::F(a, b) => {
                if chance(r, 50) {
                    f(tamper(r, a, how), (**b).clone())
                } else {
                    f((**a).clone(), tamper(r, b, how))
                }
            }
            Term::L(l, s) => lab(l, tamper(r, s, how)),
            Term::V(b) => val([b.clone(), vec![0]].concat()),
            Term::E => val([]),
            Term::P(h) => {
                let mut h = *h;
                h[0] ^= 1;
                Term::P(h)
            }
        },
        "extra" => f(t.clone(), lab(b"zz", val(b"1"))),
        "swapped" => match t {
            Term::F(a, b) => f((**b).clone(), (**a).clone()),
            t => f(t.clone(), Term::E),
        },
        "pruned" => t.prune(r, 15),
        _ => t.clone(),
    }
}

pub fn make(r: &mut R, o: &Value) -> Case {
    let mut led = Ledger::default();
    let now: u128 = match opt(o, "clock") {
        "zero" => 0,
        "small" => r.gen_range(0..1000),
        "max128" => u128::MAX - r.gen_range(0..3),
        "over64" => u64::MAX as u128 + 1 + r.gen_range(0..3),
        "wide" => (1 << 64) * r.gen_range(1..4) + 1_700_000_000_000_000_000,
        "max64" => u64::MAX as u128 - r.gen_range(0..3),
        _ => 1_700_000_000_000_000_000 + r.gen_range(0..1_000_000),
    };
    let offset: u128 = match opt(o, "offset") {
        "zero" => 0,
        "one" => 1,
        "max" => u128::MAX - r.gen_range(0..3),
        _ => 300_000_000_000,
    };
    let time = |x: u128| -> u64 { x.min(u64::MAX as u128) as u64 };
    let t = match opt(o, "time") {
        "future_edge" => time(now.saturating_add(offset)),
        "future_over" => time(now.saturating_add(offset).saturating_add(1)),
        "past_edge" => time(now.saturating_sub(offset)),
        "past_over" => time(now.saturating_sub(offset).saturating_sub(1)),
        "zero" => 0,
        "max" => u64::MAX,
        _ if opt(o, "clock") == "wide" => now as u64,
        _ => time(now),
    };
    let canister: Vec<u8> = match opt(o, "canister") {
        "short" => vec![7],
        "long29" => vec![9; 29],
        "long30" => vec![9; 30],
        "empty" => vec![],
        "other" => bytes(r, 10),
        _ => vec![0, 0, 0, 0, 1, 0x20, 0, 0x80, 1, 1],
    };
    let data = sha(b"certified");
    let mut entries = vec![
        (
            vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()],
            data.to_vec(),
        ),
        (vec![b"canister".to_vec(), canister.clone(), b"module_hash".to_vec()], vec![1; 32]),
        (vec![b"subnet".to_vec(), b"zzz".to_vec(), b"node".to_vec()], vec![2; 3]),
    ];
    let time_path = vec![b"time".to_vec()];
    match opt(o, "time") {
        "missing" => {}
        "empty" => entries.push((time_path, vec![])),
        "truncated" => entries.push((time_path, vec![0x80, 0x80])),
        "overlong" => {
            let mut v = leb(t);
            let n = v.len();
            v[n - 1] |= 0x80;
            v.push(0);
            entries.push((time_path, v))
        }
        "overflow" => entries.push((time_path, [vec![0xff; 9], vec![0x02]].concat())),
        "trailing" => entries.push((time_path, [leb(t), vec![0x80]].concat())),
        "subtree" => entries.push((vec![b"time".to_vec(), b"x".to_vec()], leb(t))),
        _ => entries.push((time_path, leb(t))),
    }
    let mut tree = build(r, entries);
    if opt(o, "time") == "pruned" {
        tree = if chance(r, 50) {
            prune_at(&tree, &[b"time".to_vec()])
        } else {
            let keep = vec![vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()]];
            tree.witness(&keep)
        };
    }
    if chance(r, 30) && opt(o, "time") != "pruned" {
        tree = tree.witness(&[
            vec![b"time".to_vec()],
            vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()],
        ]);
    }
    let deleg = opt(o, "deleg");
    let right = if deleg == "none" { "root" } else { "subnet" };
    let signer = key(match opt(o, "signer") {
        "right" => right,
        s => s,
    });
    let message = |t: &Term, d: &str| -> Vec<u8> {
        let h = t.digest();
        match d {
            "missing" => h.to_vec(),
            "request" => [b"\x0aic-request".as_slice(), &h].concat(),
            "shifted" => [b"ic-state-root".as_slice(), &h].concat(),
            _ => [DOMAIN, &h].concat(),
        }
    };
    let msg = message(&tree, opt(o, "domain"));
    let sig = led.sign(&signer, &msg);
    let shown = tamper(r, &tree, opt(o, "tree"));

    // the delegation
    let sub = b"subnet-1".to_vec();
    let sub2 = b"subnet-2".to_vec();
    let c = canister.clone();
    let ranges: Option<Vec<u8>> = match opt(o, "ranges") {
        "low" => Some(ranges_cbor(&[(c.clone(), add1(&c, 2))])),
        "high" => Some(ranges_cbor(&[(add1(&c, -2), c.clone())])),
        "below" => Some(ranges_cbor(&[(add1(&c, 1), add1(&c, 4))])),
        "above" => Some(ranges_cbor(&[(add1(&c, -4), add1(&c, -1))])),
        "second" => Some(ranges_cbor(&[(add1(&c, 8), add1(&c, 9)), (add1(&c, -1), add1(&c, 1))])),
        "between" => Some(ranges_cbor(&[(add1(&c, -8), add1(&c, -1)), (add1(&c, 1), add1(&c, 8))])),
        "shorter" => {
            let n = c.len().saturating_sub(1);
            Some(ranges_cbor(&[(vec![0; n], vec![255; n])]))
        }
        "longer" => {
            let n = (c.len() + 1).min(29);
            Some(ranges_cbor(&[(vec![0; n], vec![255; n])]))
        }
        "empty" => Some(ranges_cbor(&[])),
        "missing" => None,
        "malformed" => Some(match r.gen_range(0..4) {
            0 => vec![],
            1 => vec![0x82, 0x41],
            2 => b"\x81\x81\x41\x01".to_vec(),
            _ => bytes(r, 6),
        }),
        "reversed" => Some(ranges_cbor(&[(add1(&c, 2), add1(&c, -2))])),
        "single" => Some(ranges_cbor(&[(c.clone(), c.clone())])),
        // in any order, overlapping or not, around the canister or not
        m if m.starts_with("many") => {
            let n = *pick(r, &[2usize, 3, 4, 5, 6, 9, 17, 33]);
            let around = chance(r, 50);
            let mut v: Vec<(Vec<u8>, Vec<u8>)> = (0..n)
                .map(|_| {
                    let low = if chance(r, 50) { -r.gen_range(2..60) } else { r.gen_range(1..60) };
                    let len = if low > 0 { r.gen_range(0..30) } else { r.gen_range(0..-low) };
                    (add1(&c, low), add1(&c, low + len))
                })
                .collect();
            if around {
                let i = if chance(r, 50) { n - 1 } else { r.gen_range(0..n) };
                v[i] = (add1(&c, -r.gen_range(0..3)), add1(&c, r.gen_range(0..3)))
            }
            if chance(r, 40) {
                v.sort()
            }
            Some(ranges_cbor(&v))
        }
        "excess" => {
            let mut v = vec![0x81, 0x83];
            for x in [&c, &c, &c] {
                cbor_bytes(&mut v, x);
            }
            Some(v)
        }
        "toolong" => Some(ranges_cbor(&[(vec![0; 30], vec![255; 30]), (c.clone(), c.clone())])),
        _ => Some(ranges_cbor(&[(add1(&c, -3), add1(&c, 3))])),
    };
    let foreign = opt(o, "ranges") == "foreign";
    let mut d = vec![];
    match opt(o, "dtime") {
        "old" => d.push((vec![b"time".to_vec()], leb(1))),
        "future" => d.push((vec![b"time".to_vec()], leb(u64::MAX))),
        _ => {}
    }
    let p = |s: &[u8], l: &[u8]| vec![b"subnet".to_vec(), s.to_vec(), l.to_vec()];
    let elsewhere = ranges_cbor(&[(vec![200; 10], vec![201; 10])]);
    if opt(o, "ranges") == "subtree" {
        let mut q = p(&sub, b"canister_ranges");
        q.push(b"x".to_vec());
        d.push((q, ranges.clone().unwrap()));
    } else if let Some(x) = &ranges {
        d.push((p(&sub, b"canister_ranges"), if foreign { elsewhere.clone() } else { x.clone() }));
    }
    d.push((
        p(&sub2, b"canister_ranges"),
        if foreign { ranges.clone().unwrap_or_default() } else { elsewhere },
    ));
    let good = key("subnet").der();
    match opt(o, "skey") {
        "missing" => {}
        "other" => d.push((p(&sub, b"public_key"), key("other").der())),
        "root" => d.push((p(&sub, b"public_key"), key("root").der())),
        "foreign" => d.push((p(&sub, b"public_key"), key("subnet2").der())),
        "prefix" => {
            let mut k = good.clone();
            let i = r.gen_range(0..37);
            k[i] ^= 1;
            d.push((p(&sub, b"public_key"), k))
        }
        "short" => d.push((p(&sub, b"public_key"), good[..r.gen_range(0..133)].to_vec())),
        _ => d.push((p(&sub, b"public_key"), good.clone())),
    }
    d.push((
        p(&sub2, b"public_key"),
        if opt(o, "skey") == "foreign" { good } else { key("subnet2").der() },
    ));
    let dtree0 = build(r, d);
    let dsigner = key(opt(o, "dsigner"));
    let dmsg = message(&dtree0, opt(o, "ddomain"));
    let dsig = led.sign(&dsigner, &dmsg);
    let dtree = match opt(o, "dtree") {
        "tampered" => tamper(r, &dtree0, "tampered"),
        "pruned_other" => dtree0.witness(&[p(&sub, b"canister_ranges"), p(&sub, b"public_key")]),
        "pruned_subnet" => prune_at(&dtree0, &[b"subnet".to_vec(), sub.clone()]),
        "pruned_ranges" => prune_at(&dtree0, &p(&sub, b"canister_ranges")),
        "pruned_key" => prune_at(&dtree0, &p(&sub, b"public_key")),
        _ => dtree0.clone(),
    };
    let dsig2 = spoil(r, opt(o, "dsig"), &mut led, &dsigner, &dmsg, dsig.clone(), &sig);
    let subnet_id = match opt(o, "subnet") {
        "second" => sub2,
        "unknown" => b"subnet-9".to_vec(),
        "prefix" => b"subnet-".to_vec(),
        "empty" => vec![],
        _ => sub.clone(),
    };
    let dcert = match deleg {
        "nested" => {
            // a delegated delegation: the inner certificate carries one itself
            let inner = cert_cbor(&dtree, &dsig2, None);
            let s = led.sign_tree(&key("subnet"), &dtree);
            Some(cert_cbor(&dtree, &s, Some((&sub, &inner))))
        }
        "nested_self" => {
            let inner = cert_cbor(&dtree, &dsig2, None);
            Some(cert_cbor(&dtree, &dsig2, Some((&sub, &inner))))
        }
        "garbage" => Some(bytes(r, 20)),
        "empty" => Some(vec![]),
        "none" => None,
        _ => Some(cert_cbor(&dtree, &dsig2, None)),
    };
    let sig2 = spoil(r, opt(o, "sig"), &mut led, &signer, &msg, sig, &dsig);
    let cert = cert_cbor(&shown, &sig2, dcert.as_ref().map(|c| (subnet_id.as_slice(), c.as_slice())));
    let root = key("root").der();
    let root = match opt(o, "rootkey") {
        "other" => key("other").der(),
        "subnet" => key("subnet").der(),
        "prefix" => {
            let mut k = root;
            let i = r.gen_range(0..37);
            k[i] ^= 1 << r.gen_range(0..8);
            k
        }
        "bitflip" => {
            let mut k = root;
            let i = r.gen_range(37..133);
            k[i] ^= 1 << r.gen_range(0..8);
            k
        }
        "short" => root[..r.gen_range(37..133)].to_vec(),
        "long" => [root, vec![0]].concat(),
        "raw" => root[37..].to_vec(),
        "empty" => vec![],
        _ => root,
    };
    Case { cert, canister, root, now, offset, led, opts: o.clone() }
}

pub fn random_options(r: &mut R) -> Value {
    let mut o = json!({});
    let n = *pick(r, &[0, 1, 1, 1, 2, 2, 3]);
    if chance(r, 35) {
        o["deleg"] = json!("none");
    }
    for _ in 0..n {
        let (k, vs) = pick(r, OPTIONS);
        o[*k] = json!(*pick(r, vs));
    }
    o
}

/// Byte-level damage to the encoded certificate.
fn damage(r: &mut R, mut c: Case) -> Case {
    let n = c.cert.len();
    match r.gen_range(0..4) {
        0 => c.cert.truncate(r.gen_range(0..n)),
        1 => c.cert.push(r.gen()),
        2 => {
            let i = r.gen_range(0..n);
            c.cert[i] ^= 1 << r.gen_range(0..8);
        }
        _ => {
            let i = r.gen_range(0..n);
            c.cert.remove(i);
        }
    }
    c.opts["damage"] = json!("yes");
    c
}

pub fn run(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, o)| {
            let mut r = rng("cert-scen", i as u64);
            let c = make(&mut r, o);
            let v = observe(&c);
            run_json(&c, v)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("cert", i as u64);
        let o = random_options(&mut r);
        let mut c = make(&mut r, &o);
        if chance(&mut r, 20) {
            c = damage(&mut r, c);
        }
        let v = observe(&c);
        run_json(&c, v)
    }));
    out
}

/// C04: long sequences of related verifications in one process, in order.
pub fn histories(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let mut step = |c: &Case, h: usize, s: usize| {
        let v = observe(c);
        let mut j = run_json(c, v);
        j["history"] = json!(h);
        j["index"] = json!(s);
        out.push(j);
    };
    // histories enumerated by the specification: each step names a key, a message and a signature
    for (h, s) in scen.iter().enumerate() {
        for (i, x) in s["steps"].as_array().unwrap().iter().enumerate() {
            let (k, m, g) = (
                x["key"].as_str().unwrap(),
                x["msg"].as_str().unwrap(),
                x["sig"].as_array().unwrap(),
            );
            let mut led = Ledger::default();
            let tree = |m: &str| {
                let e = vec![
                    (vec![b"time".to_vec()], leb(1000)),
                    (vec![b"m".to_vec()], format!("{h}-{m}").into_bytes()),
                ];
                build(&mut rng("history", h as u64), e)
            };
            let t = tree(m);
            let sig = match g[0].as_str().unwrap() {
                "forged" => led.sign(&key("nobody"), b"nothing"),
                signer => led.sign_tree(&key(signer), &tree(g[1].as_str().unwrap())),
            };
            let c = Case {
                cert: cert_cbor(&t, &sig, None),
                canister: vec![1],
                root: key(k).der(),
                now: 1000,
                offset: 10,
                led,
                opts: x.clone(),
            };
            step(&c, h, i);
        }
    }
    for h in 0..n {
        let mut r = rng("histories", h as u64);
        // a family of related cases: one valid, its one-step deviations, cross-overs
        let base = random_options(&mut r);
        let seed = r.gen::<u64>();
        let mut pool: Vec<Case> = vec![];
        for _ in 0..6 {
            let mut o = if chance(&mut r, 60) { json!({"deleg": base.get("deleg").cloned().unwrap_or(json!("yes"))}) } else { base.clone() };
            if chance(&mut r, 70) {
                let (k, vs) = pick(&mut r, &OPTIONS[1..12]);
                o[*k] = json!(*pick(&mut r, vs));
            }
            // the same random choices everywhere, so that trees and signatures coincide
            let mut r2 = rng("history-case", seed);
            let mut c = make(&mut r2, &o);
            c.now = 1_700_000_000_000_000_000;
            pool.push(c);
        }
        // the same certificates under other parameters
        for _ in 0..4 {
            let mut c = pick(&mut r, &pool).clone();
            match r.gen_range(0..4) {
                0 => c.root = key("other").der(),
                1 => c.canister = vec![200; 10],
                2 => c.now = 0,
                _ => c.root = key("subnet").der(),
            }
            pool.push(c);
        }
        // everything signed anywhere in this history
        let mut led = Ledger::default();
        for c in &pool {
            for e in &c.led.0 {
                if !led.0.contains(e) {
                    led.0.push(e.clone());
                }
            }
        }
        for c in pool.iter_mut() {
            c.led = led.clone();
        }
        let mut order: Vec<usize> = (0..pool.len()).chain(0..pool.len()).collect();
        order.shuffle(&mut r);
        for (s, k) in order.into_iter().enumerate() {
            step(&pool[k], h, s);
        }
    }
    out
}
