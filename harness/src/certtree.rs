//! C16, C17, C22: certifications, the certification tree, and what it certifies.
use crate::term::*;
use crate::util::*;
use crate::verify::*;
use crate::world::*;
use ic_certification::{merge_hash_trees, HashTree};
use ic_http_certification::utils::{add_skip_certification_header, add_v2_certificate_header, skip_certification_certified_data};
use ic_http_certification::{
    DefaultCelBuilder, DefaultFullCelExpression, DefaultResponseCertification, DefaultResponseOnlyCelExpression, HttpCertification,
    HttpCertificationError, HttpCertificationPath, HttpCertificationTree, HttpCertificationTreeEntry,
};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

pub fn ce_json(c: &Ce) -> Value {
    let rc = |r: &Rc| match r {
        Rc::Certified(v) => json!(["certified", v]),
        Rc::Excluded(v) => json!(["excluded", v]),
    };
    match c {
        Ce::Skip => json!(["skip"]),
        Ce::Response(r) => json!(["response", rc(r)]),
        Ce::Full(h, p, r) => json!(["full", h, p, rc(r)]),
    }
}

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
pub fn lib_rc(r: &Rc) -> DefaultResponseCertification<'_> {
    match r {
        Rc::Certified(v) => DefaultResponseCertification::certified_response_headers(strs(v)),
        Rc::Excluded(v) => DefaultResponseCertification::response_header_exclusions(strs(v)),
    }
}
pub fn lib_response(r: &Rc) -> DefaultResponseOnlyCelExpression<'_> {
    DefaultCelBuilder::response_only_certification().with_response_certification(lib_rc(r)).build()
}
pub fn lib_full<'a>(h: &'a [String], p: &'a [String], r: &'a Rc) -> DefaultFullCelExpression<'a> {
    DefaultCelBuilder::full_certification()
        .with_request_headers(strs(h))
        .with_request_query_parameters(strs(p))
        .with_response_certification(lib_rc(r))
        .build()
}
pub fn lib_text(c: &Ce) -> String {
    match c {
        Ce::Skip => DefaultCelBuilder::skip_certification().to_string(),
        Ce::Response(r) => lib_response(r).to_string(),
        Ce::Full(h, p, r) => lib_full(h, p, r).to_string(),
    }
}

/// What is certified: an expression, a request and a response, and perhaps the body's hash.
#[derive(Clone)]
pub struct What {
    pub ce: Ce,
    pub x: X,
    pub given: Option<[u8; 32]>,
}
impl What {
    pub fn certify(&self) -> Result<HttpCertification, HttpCertificationError> {
        match &self.ce {
            Ce::Skip => Ok(HttpCertification::skip()),
            Ce::Response(r) => HttpCertification::response_only(&lib_response(r), &self.x.response(), self.given),
            Ce::Full(h, p, r) => HttpCertification::full(&lib_full(h, p, r), &self.x.request(), &self.x.response(), self.given),
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "cel": ce_json(&self.ce),
            "req": {"method": self.x.method, "url": self.x.url, "headers": headers_json(&self.x.rqh), "body": hx(&self.x.rqb)},
            "resp": {"status": self.x.status.to_string(), "headers": headers_json(&self.x.rsh), "body": hx(&self.x.rsb)},
            "given": match self.given { Some(h) => json!(["hash", hx(h)]), None => json!(["none"]) },
        })
    }
}

const PARAMS: &[&str] = &["q", "r", "id", "Q"];

pub fn random_ce(r: &mut R, kind: &str) -> Ce {
    let rc = if chance(r, 50) { Rc::Certified(lists(r, 4)) } else { Rc::Excluded(lists(r, 4)) };
    match kind {
        "skip" => Ce::Skip,
        "response" => Ce::Response(rc),
        _ => {
            let n = r.gen_range(0..=3);
            Ce::Full(lists(r, 4), PARAMS.choose_multiple(r, n).map(|s| s.to_string()).collect(), rc)
        }
    }
}

/// An exchange to be certified; its response carries the expression.
pub fn random_what(r: &mut R, kind: &str) -> What {
    let ce = random_ce(r, kind);
    let mut x = base(r);
    x.method = if chance(r, 60) { *pick(r, &["GET", "POST", "HEAD"]) } else { *pick(r, METHODS) }.to_string();
    x.status = if chance(r, 50) { *pick(r, &[200, 404, 301, 206, 999]) } else { status(r) };
    x.rqh = random_headers(r, 4);
    x.rsh = random_headers(r, 4);
    x.rqb = if chance(r, 30) { bytes(r, 3) } else { vec![] };
    let n = length(r, &[0usize, 1, 40]);
    x.rsb = bytes(r, n);
    x.url = "/x".into();
    if chance(r, 60) {
        let n = size(r, 3);
        let q: Vec<String> = (0..n).map(|_| format!("{}={}", pick(r, PARAMS), r.gen_range(0..3))).collect();
        x.url = format!("/x?{}", q.join("&"));
    }
    let at = r.gen_range(0..=x.rsh.len());
    let name = if chance(r, 70) { "IC-CertificateExpression" } else { "ic-certificateexpression" };
    x.rsh.insert(at, (name.into(), ce.text()));
    What { ce, x, given: None }
}

// ---- the tree ------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Ent {
    pub wild: bool,
    pub path: String,
    pub what: What,
}
impl Ent {
    fn path(&self) -> HttpCertificationPath<'static> {
        if self.wild {
            HttpCertificationPath::wildcard(self.path.clone())
        } else {
            HttpCertificationPath::exact(self.path.clone())
        }
    }
    pub fn entry(&self) -> HttpCertificationTreeEntry<'static> {
        HttpCertificationTreeEntry::new(self.path(), self.what.certify().expect("certifiable"))
    }
    pub fn json(&self) -> Value {
        let mut v = self.what.json();
        v["wild"] = json!(self.wild);
        v["path"] = hx(&self.path);
        v
    }
}

#[derive(Clone, Debug)]
enum Op {
    Ins(usize),
    Del(usize),
    Clear,
}

/// One answer as a canister would give it, checked by the verifier.
fn answer(r: &mut R, root: &[u8], witness: &HashTree, e: &Ent, url: &str) -> Value {
    let mut x = e.what.x.clone();
    x.opts = json!({});
    let q = x.url.split_once('?').map(|(_, q)| q.to_string());
    x.url = encode_path(r, url);
    if x.url.is_empty() {
        x.url = "https://x.icp0.io".into()
    } else if chance(r, 10) {
        x.url = format!("https://x.icp0.io{}", x.url)
    }
    if let Some(q) = q {
        x.url.push('?');
        x.url.push_str(&q)
    }
    // what is not certified is free
    if chance(r, 30) {
        let l: Vec<String> = match &e.what.ce {
            Ce::Full(h, _, _) => h.clone(),
            _ => vec![],
        };
        if !listed(&l, "x-free") {
            x.rqh.insert(0, ("X-Free".into(), "1".into()))
        }
    }
    let canister = x.canister.clone();
    let now = x.now as u64;
    let cert = simple_cert(r, &mut x.led, &canister, root, now, false);
    if chance(r, 12) {
        // a response that has been served before
        let n = *pick(r, &["IC-Certificate", "ic-certificate"]);
        let old = pick(r, &["certificate=:AA==:, tree=:AA==:, expr_path=:AA==:, version=2", "certificate=:AA==:, tree=:AA==:", ""]);
        x.rsh.insert(r.gen_range(0..=x.rsh.len()), (n.into(), old.to_string()))
    }
    let mut resp = x.response();
    let path = e.path().to_expr_path();
    if guard(|| add_v2_certificate_header(&cert, &mut resp, witness, &path)).is_err() {
        return json!({"kind": "panic"});
    }
    x.rsh = resp.headers().to_vec();
    run_json(&x, observe(&x))
}

fn observe_tree(r: &mut R, t: &HttpCertificationTree, pool: &[Ent], asks: &[(usize, String)], verify: u32) -> Value {
    let full = guard(|| {
        let mut acc: Option<HashTree> = None;
        for e in pool {
            let w = t.witness(&e.entry(), &e.path).expect("witness of the path itself");
            acc = Some(match acc {
                None => w,
                Some(a) => merge_hash_trees(a, w),
            });
        }
        Term::from_lib(&acc.unwrap()).json()
    })
    .unwrap_or_else(|_| json!(["panic"]));
    let root = guard(|| t.root_hash());
    let wits: Vec<Value> = asks
        .iter()
        .map(|(i, url)| {
            let e = &pool[*i];
            let got = guard(|| t.witness(&e.entry(), url));
            let (got, run) = match (&got, &root) {
                (Ok(Ok(w)), Ok(root)) => (
                    json!(["ok", Term::from_lib(w).json()]),
                    if chance(r, verify) { json!([answer(r, root, w, e, url)]) } else { json!([]) },
                ),
                (Ok(Ok(w)), _) => (json!(["ok", Term::from_lib(w).json()]), json!([])),
                (Ok(Err(HttpCertificationError::WildcardPathNotValidForRequestPath { .. })), _) => (json!(["err"]), json!([])),
                (Ok(Err(_)), _) => (json!(["othererr"]), json!([])),
                (Err(_), _) => (json!(["panic"]), json!([])),
            };
            json!({"e": i + 1, "url": hx(url), "got": got, "run": run})
        })
        .collect();
    json!({"root": root.map(hx).unwrap_or(json!("panic")), "full": full, "wit": wits})
}

fn history(r: &mut R, pool: &[Ent], ops: &[Op], asks: &dyn Fn(&mut R) -> Vec<(usize, String)>, verify: u32, last_only: bool) -> Value {
    let mut t = HttpCertificationTree::default();
    let mut steps = vec![];
    for (i, op) in ops.iter().enumerate() {
        let bad = guard(|| match op {
            Op::Ins(e) => t.insert(&pool[*e].entry()),
            Op::Del(e) => t.delete(&pool[*e].entry()),
            Op::Clear => t.clear(),
        })
        .is_err();
        let mut o = if bad {
            json!({"bad": true})
        } else if last_only && i + 1 < ops.len() {
            json!({"bad": false})
        } else {
            let a = asks(r);
            observe_tree(r, &t, pool, &a, verify)
        };
        o["op"] = match op {
            Op::Ins(e) => json!(["ins", e + 1]),
            Op::Del(e) => json!(["del", e + 1]),
            Op::Clear => json!(["clear"]),
        };
        steps.push(o);
        if bad {
            break;
        }
    }
    json!({"kind": "certtree", "entries": pool.iter().map(|e| e.json()).collect::<Vec<_>>(), "steps": steps})
}

const KINDS: &[&str] = &["response", "full", "full", "skip"];

pub fn random_path(r: &mut R, odd: bool) -> String {
    let names: &[&str] = if odd { &["a", "b", "\u{e9}", "<*>", "<$>", "<&>", "<", "http_expr", " "] } else { &["a", "b", "aa", "<&>"] };
    let n = size(r, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push('/');
        if chance(r, 3) {
            s.push('/')
        }
        s.push_str(*pick(r, names));
        if odd && chance(r, 4) {
            let p = unusual_path(r);
            s.push_str(p.trim_matches('/'))
        }
    }
    if s.is_empty() || chance(r, 35) {
        s.push('/')
    }
    s
}

pub fn run(n: usize, scen: &[Value], verify: u32) -> Vec<Value> {
    let hexstr = |v: &Value| String::from_utf8(hex::decode(v.as_str().unwrap()).unwrap()).unwrap();
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("certtree-scen", i as u64);
            let whats: Vec<What> = (0..3)
                .map(|_| {
                    let k = *pick(&mut r, KINDS);
                    random_what(&mut r, k)
                })
                .collect();
            let pool: Vec<Ent> = s["entries"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| Ent {
                    wild: e["wild"].as_bool().unwrap(),
                    path: hexstr(&e["path"]),
                    what: whats[e["cert"].as_u64().unwrap() as usize].clone(),
                })
                .collect();
            let ops: Vec<Op> = s["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| match o[0].as_str().unwrap() {
                    "ins" => Op::Ins(o[1].as_u64().unwrap() as usize - 1),
                    "del" => Op::Del(o[1].as_u64().unwrap() as usize - 1),
                    _ => Op::Clear,
                })
                .collect();
            let urls: Vec<String> = s["urls"].as_array().unwrap().iter().map(hexstr).collect();
            let np = pool.len();
            let asks = |r: &mut R| -> Vec<(usize, String)> {
                let mut a: Vec<(usize, String)> = (0..np).flat_map(|i| urls.iter().map(move |u| (i, u.clone()))).collect();
                a.shuffle(r);
                a.truncate(16);
                a
            };
            history(&mut r, &pool, &ops, &asks, verify, true)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("certtree", i as u64);
        let odd = chance(&mut r, 20);
        let np = r.gen_range(2..9);
        let whats: Vec<What> = (0..3)
            .map(|_| {
                let k = *pick(&mut r, KINDS);
                random_what(&mut r, k)
            })
            .collect();
        let pool: Vec<Ent> = (0..np)
            .map(|_| {
                let wild = chance(&mut r, 60);
                let path = if wild && chance(&mut r, 10) { String::new() } else { random_path(&mut r, odd) };
                Ent { wild, path, what: pick(&mut r, &whats).clone() }
            })
            .collect();
        // neighbours on both sides of the terminators, below a request answered by a wildcard above it
        let crowd = chance(&mut r, 25);
        let base = random_path(&mut r, odd);
        let base = base.trim_end_matches('/').to_string();
        let mut pool: Vec<Ent> = pool;
        if crowd {
            let above: Vec<String> = (0..=base.len()).filter(|k| *k == base.len() || base.as_bytes()[*k] == b'/').map(|k| base[..k].to_string()).collect();
            let mut ps: Vec<(bool, String)> = vec![(true, pick(&mut r, &above).clone())];
            for t in ["/<&>", "/b", "/!", "/<$", "/<*>>", "/"] {
                if chance(&mut r, 50) {
                    ps.push((chance(&mut r, 30), format!("{base}{t}")))
                }
            }
            pool = ps.into_iter().map(|(wild, path)| Ent { wild, path, what: pick(&mut r, &whats).clone() }).collect()
        }
        let np = pool.len();
        let len = r.gen_range(3..14);
        let mut ops: Vec<Op> = (0..len)
            .map(|_| match r.gen_range(0..100) {
                0..=59 => Op::Ins(r.gen_range(0..np)),
                60..=95 => Op::Del(r.gen_range(0..np)),
                _ => Op::Clear,
            })
            .collect();
        if chance(&mut r, 50) {
            ops.splice(0..0, (0..np).map(Op::Ins));
        }
        let paths: Vec<String> = pool.iter().map(|e| e.path.clone()).collect();
        let asks = |r: &mut R| -> Vec<(usize, String)> {
            (0..4)
                .map(|_| {
                    if crowd && chance(r, 50) {
                        return (0, if base.is_empty() { "/".to_string() } else { base.clone() });
                    }
                    let k = r.gen_range(0..np);
                    let mut u = if chance(r, 70) { paths[k].clone() } else { random_path(r, odd) };
                    match r.gen_range(0..10) {
                        0..=2 => u = format!("{}/{}", u.trim_end_matches('/'), pick(r, &["a", "b", "c"])),
                        3 => u.push('/'),
                        4 => u = format!("{}/a/b", u.trim_end_matches('/')),
                        5 => {
                            let n = size(r, 3);
                            u = format!("{}{}", u.trim_end_matches('/'), "/b".repeat(n))
                        }
                        _ => {}
                    }
                    if u.is_empty() {
                        u.push('/')
                    }
                    (k, u)
                })
                .collect()
        };
        history(&mut r, &pool, &ops, &asks, verify, false)
    }));
    // the library's own shortcut for answers that are not certified
    if verify > 0 {
        for i in 0..20 {
            let mut r = rng("skip-helper", i);
            let mut x = random_what(&mut r, "skip").x;
            x.opts = json!({});
            x.rsh.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificateexpression"));
            let u = *pick(&mut r, &["/", "/a", "/a/b/", "/<$>", "/index.html"]);
            x.url = encode_path(&mut r, u);
            let canister = x.canister.clone();
            let now = x.now as u64;
            let data = skip_certification_certified_data();
            let cert = simple_cert(&mut r, &mut x.led, &canister, &data, now, i % 2 == 0);
            let mut resp = x.response();
            add_skip_certification_header(cert, &mut resp);
            x.rsh = resp.headers().to_vec();
            let o = observe(&x);
            out.push(json!({"kind": "skiphelper", "steps": [{"op": ["clear"], "run": run_json(&x, o)}]}));
        }
    }
    out
}

// ---- creating certifications ---------------------------------------------------------------
fn created(w: &What) -> (Value, Option<HttpCertification>) {
    match guard(|| w.certify()) {
        Err(_) => (json!(["panic"]), None),
        Ok(Err(e)) => (
            match e {
                HttpCertificationError::MalformedUrl(_) => json!(["err", "url", "", ""]),
                HttpCertificationError::CertificateExpressionHeaderMissing { expected } => json!(["err", "missing", expected, ""]),
                HttpCertificationError::CertificateExpressionHeaderMismatch { expected, actual } => {
                    json!(["err", "mismatch", expected, actual])
                }
                HttpCertificationError::MultipleCertificateExpressionHeaders { expected } => json!(["err", "multiple", expected, ""]),
                _ => json!(["err", "other", "", ""]),
            },
            None,
        ),
        Ok(Ok(c)) => {
            let t = guard(|| {
                let mut t = HttpCertificationTree::default();
                let e = HttpCertificationTreeEntry::new(HttpCertificationPath::exact("/"), c);
                t.insert(&e);
                Term::from_lib(&t.witness(&e, "/").unwrap()).json()
            })
            .unwrap_or_else(|_| json!(["panic"]));
            (json!(["ok", t]), Some(c))
        }
    }
}

fn family(r: &mut R, tokens: &[&str], kind: &str) -> Value {
    let mut w = random_what(r, kind);
    w.x.rsh.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificateexpression"));
    let text = w.ce.text();
    for t in tokens {
        let name = pick(r, &["IC-CertificateExpression", "ic-certificateexpression", "Ic-CERTIFICATEexpression"]).to_string();
        let v = match *t {
            "same" => text.clone(),
            "other" => random_ce(r, "response").text() + " ",
            "spaced" => text.replacen('(', "( ", 1),
            "cased" => text.to_ascii_uppercase(),
            "longer" => format!("{text}x"),
            "before" => format!("{}{text}", pick(r, &[" ", "\t", "\n", "\u{a0}"])),
            "after" => format!("{text}{}", pick(r, &[" ", "\t", "\r\n", ",", ";"])),
            "shorter" => text[..text.len() - 1].to_string(),
            "empty" => String::new(),
            _ => text.clone(),
        };
        let name = match *t {
            "nearly" => pick(r, &["IC-CertificateExpressions", "IC-CertificateExpression ", " ic-certificateexpression", "ic_certificateexpression", "IC-CertificateExpressio", ""]).to_string(),
            "certificate" => "IC-Certificate".to_string(),
            _ => name,
        };
        w.x.rsh.push((name, v));
    }
    if chance(r, 30) {
        w.x.rsh.shuffle(r)
    }
    if chance(r, 8) {
        w.x.url = pick(r, &["", "/a b", "http://", "x y", "//", "?", "/\u{e9}"]).to_string()
    }
    // relatives: one thing changed
    let mut all = vec![w.clone()];
    for _ in 0..4 {
        let mut v = w.clone();
        match r.gen_range(0..15) {
            0 => v.x.rsb.push(1),
            1 => v.x.status = if v.x.status == 200 { 201 } else { 200 },
            2 => v.x.rqb.push(2),
            3 => v.x.method = "PUT".into(),
            4 => v.x.rsh.push(("X-Cert".into(), "v".into())),
            5 => v.x.rqh.push(("X-Cert".into(), "v".into())),
            6 => v.given = Some(sha(&v.x.rsb)),
            7 => v.given = Some(sha(b"something else")),
            8 => v.x.rsh.shuffle(r),
            9 => v.x.rqh.shuffle(r),
            10 => v.x.url = "/y?q=9".into(),
            11 => v.x.url = v.x.url.replacen("/x", "/other", 1),
            12 => {
                v.ce = Ce::Skip;
            }
            13 => {
                // another expression, with its header
                let k = *pick(r, KINDS);
                v.ce = random_ce(r, k);
                v.x.rsh.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificateexpression"));
                v.x.rsh.push(("IC-CertificateExpression".into(), v.ce.text()));
            }
            _ => {}
        }
        all.push(v);
    }
    let made: Vec<(Value, Option<HttpCertification>)> = all.iter().map(created).collect();
    let mut eq = vec![];
    for (i, a) in made.iter().enumerate() {
        for (j, b) in made.iter().enumerate().skip(i + 1) {
            if let (Some(a), Some(b)) = (a.1, b.1) {
                eq.push(json!([i + 1, j + 1, a == b]))
            }
        }
    }
    let items: Vec<Value> = all
        .iter()
        .zip(&made)
        .map(|(w, m)| {
            let mut v = w.json();
            v["got"] = m.0.clone();
            v
        })
        .collect();
    json!({"kind": "certify", "items": items, "eq": eq})
}

pub fn run_certify(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("certify-scen", i as u64);
            let t: Vec<&str> = s["headers"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
            family(&mut r, &t, s["kind"].as_str().unwrap())
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("certify", i as u64);
        let k = *pick(&mut r, &["response", "full", "full"]);
        family(&mut r, &["same"], k)
    }));
    out
}
