//! C23 - C27: histories of the asset router.
use crate::certtree::*;
use crate::term::*;
use crate::util::*;
use crate::verify::*;
use crate::world::*;
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter, ASSET_CHUNK_SIZE};
use ic_certification::{merge_hash_trees, HashTree};
use ic_http_certification::{
    DefaultCelBuilder, DefaultResponseCertification, HttpCertification, HttpCertificationPath, HttpCertificationTree,
    HttpCertificationTreeEntry, HttpRequest, HttpResponse, Method, StatusCode,
};
use ic_response_verification::verify_request_response_pair;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc as Shared;
use std::sync::Mutex;

const CHUNK: usize = 2_000_000;

// ---- contents ------------------------------------------------------------------------------
/// Contents of assets, made once and kept: large ones are expensive.
#[derive(Clone, Copy)]
struct Content {
    data: &'static [u8],
    sha: &'static str,
    chunks: &'static [String],
}
static CONTENTS: Mutex<Option<HashMap<(usize, u64), Content>>> = Mutex::new(None);

fn content(len: usize, variant: u64) -> Content {
    if let Some(c) = CONTENTS.lock().unwrap().get_or_insert_with(HashMap::new).get(&(len, variant)) {
        return *c;
    }
    let data = bytes(&mut rng("content", len as u64 * 16 + variant), len);
    let h = |d: &[u8]| hex::encode(sha(d));
    let chunks: Vec<String> = if len > CHUNK { data.chunks(CHUNK).map(h).collect() } else { vec![] };
    let c = Content { sha: h(&data).leak(), chunks: chunks.leak(), data: data.leak() };
    *CONTENTS.lock().unwrap().get_or_insert_with(HashMap::new).entry((len, variant)).or_insert(c)
}

#[derive(Clone)]
struct A {
    path: String,
    content: Content,
}
impl A {
    fn new(path: &str, len: usize, variant: u64) -> A {
        A { path: path.into(), content: content(len, variant) }
    }
    fn json(&self) -> Value {
        json!({"path": hx(&self.path), "len": self.content.data.len(), "sha": self.content.sha, "chunks": self.content.chunks})
    }
    fn lib(&self, r: &mut R) -> Asset<'static, 'static> {
        match r.gen_range(0..3) {
            0 => Asset::new(self.path.clone(), self.content.data.to_vec()),
            _ => Asset::new(self.path.clone(), self.content.data),
        }
    }
}

// ---- configurations ------------------------------------------------------------------------
#[derive(Clone)]
enum Tok {
    C(char),
    One,
    Star,
    Class(bool, Vec<(char, char)>),
    Alt(Vec<Vec<Tok>>),
    Prefix,
    Suffix,
    Between,
}
fn glob_text(ts: &[Tok]) -> String {
    ts.iter()
        .map(|t| match t {
            Tok::C(c) => c.to_string(),
            Tok::One => "?".into(),
            Tok::Star => "*".into(),
            Tok::Class(neg, rs) => format!(
                "[{}{}]",
                if *neg { "!" } else { "" },
                rs.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") }).collect::<String>()
            ),
            Tok::Alt(ps) => format!("{{{}}}", ps.iter().map(|p| glob_text(p)).collect::<Vec<_>>().join(",")),
            Tok::Prefix => "**/".into(),
            Tok::Suffix => "/**".into(),
            Tok::Between => "/**/".into(),
        })
        .collect()
}
fn glob_json(ts: &[Tok]) -> Value {
    let c = |c: &char| format!("{:02x}", *c as u32);
    Value::Array(
        ts.iter()
            .map(|t| match t {
                Tok::C(x) => json!(["c", c(x)]),
                Tok::One => json!(["one"]),
                Tok::Star => json!(["star"]),
                Tok::Class(neg, rs) => json!(["class", neg, rs.iter().map(|(a, b)| json!([c(a), c(b)])).collect::<Vec<_>>()]),
                Tok::Alt(ps) => json!(["alt", ps.iter().map(|p| glob_json(p)).collect::<Vec<_>>()]),
                Tok::Prefix => json!(["prefix"]),
                Tok::Suffix => json!(["suffix"]),
                Tok::Between => json!(["between"]),
            })
            .collect(),
    )
}
fn glob_from(v: &Value) -> Vec<Tok> {
    let c = |v: &Value| u8::from_str_radix(v.as_str().unwrap(), 16).unwrap() as char;
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| match t[0].as_str().unwrap() {
            "c" => Tok::C(c(&t[1])),
            "one" => Tok::One,
            "star" => Tok::Star,
            "class" => Tok::Class(t[1].as_bool().unwrap(), t[2].as_array().unwrap().iter().map(|p| (c(&p[0]), c(&p[1]))).collect()),
            "alt" => Tok::Alt(t[1].as_array().unwrap().iter().map(glob_from).collect()),
            "prefix" => Tok::Prefix,
            "suffix" => Tok::Suffix,
            _ => Tok::Between,
        })
        .collect()
}

type Encs = Vec<(String, String)>;
#[derive(Clone)]
enum Cfg {
    File { path: String, ty: Option<String>, headers: Headers, fallbacks: Vec<(String, Option<u16>)>, aliases: Vec<String>, encs: Encs },
    Pattern { glob: Vec<Tok>, ty: Option<String>, headers: Headers, encs: Encs },
    Redirect { from: String, to: String, permanent: bool },
    Invalid(String),
}
fn enc_of(n: &str) -> AssetEncoding {
    match n {
        "identity" => AssetEncoding::Identity,
        "br" => AssetEncoding::Brotli,
        "zstd" => AssetEncoding::Zstd,
        "gzip" => AssetEncoding::Gzip,
        _ => AssetEncoding::Deflate,
    }
}
impl Cfg {
    fn json(&self) -> Value {
        let ty = |t: &Option<String>| t.iter().cloned().collect::<Vec<_>>();
        let encs = |e: &Encs| Value::Array(e.iter().map(|(n, p)| json!([n, hx(p)])).collect());
        match self {
            Cfg::File { path, ty: t, headers, fallbacks, aliases, encs: e } => json!({
                "kind": "file", "path": hx(path), "type": ty(t), "headers": headers_json(headers),
                "fallbacks": fallbacks.iter().map(|(s, c)| json!([hx(s), c.map(|c| c.to_string()).unwrap_or_default()])).collect::<Vec<_>>(),
                "aliases": aliases.iter().map(hx).collect::<Vec<_>>(), "encodings": encs(e)}),
            Cfg::Pattern { glob, ty: t, headers, encs: e } => json!({
                "kind": "pattern", "glob": glob_json(glob), "text": glob_text(glob), "type": ty(t), "headers": headers_json(headers), "encodings": encs(e)}),
            Cfg::Redirect { from, to, permanent } => json!({
                "kind": "redirect", "from": hx(from), "to": to, "status": if *permanent { "301" } else { "307" }}),
            Cfg::Invalid(t) => json!({"kind": "invalid", "text": t}),
        }
    }
    fn lib(&self) -> AssetConfig {
        // the library's own default postfixes, where they are the wanted ones
        let encs = |e: &Encs| {
            e.iter()
                .map(|(n, p)| {
                    let e = enc_of(n);
                    if e.default_config().1 == *p {
                        e.default_config()
                    } else {
                        e.custom_config(p.clone())
                    }
                })
                .collect()
        };
        match self {
            Cfg::File { path, ty, headers, fallbacks, aliases, encs: e } => AssetConfig::File {
                path: path.clone(),
                content_type: ty.clone(),
                headers: headers.clone(),
                fallback_for: fallbacks
                    .iter()
                    .map(|(s, c)| AssetFallbackConfig { scope: s.clone(), status_code: c.map(|c| StatusCode::from_u16(c).unwrap()) })
                    .collect(),
                aliased_by: aliases.clone(),
                encodings: encs(e),
            },
            Cfg::Pattern { glob, ty, headers, encs: e } => {
                AssetConfig::Pattern { pattern: glob_text(glob), content_type: ty.clone(), headers: headers.clone(), encodings: encs(e) }
            }
            Cfg::Redirect { from, to, permanent } => AssetConfig::Redirect {
                from: from.clone(),
                to: to.clone(),
                kind: if *permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary },
            },
            Cfg::Invalid(t) => AssetConfig::Pattern { pattern: t.clone(), content_type: None, headers: vec![], encodings: vec![] },
        }
    }
    fn from(v: &Value) -> Cfg {
        let s = |v: &Value| v.as_str().unwrap().to_string();
        let p = |v: &Value| String::from_utf8(hex::decode(v.as_str().unwrap()).unwrap()).unwrap();
        let list = |v: &Value| v.as_array().unwrap().clone();
        let headers = |v: &Value| list(v).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
        let encs = |v: &Value| list(v).iter().map(|h| (s(&h[0]), p(&h[1]))).collect();
        match v["kind"].as_str().unwrap() {
            "file" => Cfg::File {
                path: p(&v["path"]),
                ty: list(&v["type"]).first().map(s),
                headers: headers(&v["headers"]),
                fallbacks: list(&v["fallbacks"]).iter().map(|f| (p(&f[0]), s(&f[1]).parse().ok())).collect(),
                aliases: list(&v["aliases"]).iter().map(p).collect(),
                encs: encs(&v["encodings"]),
            },
            "pattern" => Cfg::Pattern {
                glob: glob_from(&v["glob"]),
                ty: list(&v["type"]).first().map(s),
                headers: headers(&v["headers"]),
                encs: encs(&v["encodings"]),
            },
            "redirect" => Cfg::Redirect { from: p(&v["from"]), to: s(&v["to"]), permanent: v["status"] == "301" },
            _ => Cfg::Invalid(s(&v["text"])),
        }
    }
}

#[derive(Clone)]
enum Op {
    Certify(Vec<usize>, Vec<Cfg>),
    Delete(Vec<usize>, Vec<Cfg>),
    Clear,
}
impl Op {
    fn json(&self) -> Value {
        let ids = |v: &[usize]| v.iter().map(|i| i + 1).collect::<Vec<_>>();
        let cfgs = |v: &[Cfg]| v.iter().map(|c| c.json()).collect::<Vec<_>>();
        match self {
            Op::Certify(a, c) => json!(["certify", ids(a), cfgs(c)]),
            Op::Delete(a, c) => json!(["delete", ids(a), cfgs(c)]),
            Op::Clear => json!(["clear"]),
        }
    }
}

struct Probe {
    method: String,
    url: String,
    headers: Headers,
    body: Vec<u8>,
}
fn get(url: impl Into<String>, headers: Headers) -> Probe {
    Probe { method: "GET".into(), url: url.into(), headers, body: vec![] }
}

// ---- observing -----------------------------------------------------------------------------
fn response_json(p: &HttpResponse) -> Value {
    json!({"status": p.status_code().as_u16().to_string(), "headers": headers_json(&p.headers().to_vec()),
           "len": p.body().len(), "sha": hx(sha(p.body()))})
}

/// The certification of a response the router lists, made anew.
fn entry_for(path: &str, wild: bool, range: Option<Option<usize>>, p: &HttpResponse) -> Option<HttpCertificationTreeEntry<'static>> {
    let cel = DefaultCelBuilder::full_certification()
        .with_request_headers(if range.is_some() { vec!["range"] } else { vec![] })
        .with_response_certification(DefaultResponseCertification::response_header_exclusions(vec![]))
        .build();
    let h = match range {
        Some(Some(b)) => vec![("range".to_string(), format!("bytes={b}-"))],
        _ => vec![],
    };
    let req = HttpRequest::get("/").with_headers(h).build();
    let c = HttpCertification::full(&cel, &req, p, Some(sha(p.body()))).ok()?;
    let path = if wild { HttpCertificationPath::wildcard(path.to_string()) } else { HttpCertificationPath::exact(path.to_string()) };
    Some(HttpCertificationTreeEntry::new(path, c))
}

struct World {
    tree: Option<Shared<RefCell<HttpCertificationTree>>>,
    router: AssetRouter<'static>,
    seen: Vec<(HttpCertificationTreeEntry<'static>, String)>,
    known: HashSet<String>,
    x: X,
}

impl World {
    fn new(r: &mut R, shared: bool, foreign: &[Ent]) -> World {
        let mut x = base(r);
        x.min = 2;
        let mut w = if shared || !foreign.is_empty() {
            let tree: Shared<RefCell<HttpCertificationTree>> = Default::default();
            World { router: AssetRouter::with_tree(tree.clone()), tree: Some(tree), seen: vec![], known: HashSet::new(), x }
        } else {
            World { router: if chance(r, 50) { AssetRouter::new() } else { AssetRouter::default() }, tree: None, seen: vec![], known: HashSet::new(), x }
        };
        let nothing = Ent { wild: false, path: "/nothing here".into(), what: random_what(r, "skip") };
        w.seen.push((nothing.entry(), nothing.path.clone()));
        for e in foreign {
            w.tree.as_ref().unwrap().borrow_mut().insert(&e.entry());
            w.seen.push((e.entry(), e.path.clone()));
        }
        w
    }

    fn apply(&mut self, r: &mut R, pool: &[A], op: &Op) -> Value {
        let mut of = |ids: &[usize]| -> Vec<Asset<'static, 'static>> { ids.iter().map(|i| pool[*i].lib(r)).collect() };
        let got = match op {
            Op::Certify(a, c) => {
                let a = of(a);
                guard(|| self.router.certify_assets(a, c.iter().map(|c| c.lib()).collect::<Vec<_>>()).is_ok())
            }
            Op::Delete(a, c) => {
                let a = of(a);
                guard(|| self.router.delete_assets(a, c.iter().map(|c| c.lib()).collect::<Vec<_>>()).is_ok())
            }
            Op::Clear => guard(|| {
                self.router.delete_all_assets();
                true
            }),
        };
        json!(match got {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        })
    }

    fn listing(&mut self, wild: bool) -> (Vec<Value>, usize) {
        let mut out = vec![];
        let mut new = vec![];
        {
            let mut each = |items: &mut dyn Iterator<Item = ((&str, Option<&str>, Option<usize>), &HttpResponse<'_>)>,
                            first: &dyn Fn(&str, Option<&str>) -> Option<HttpResponse<'static>>| {
                for ((path, enc, begin), p) in items {
                    let resp = response_json(p);
                    let key = format!("{wild} {path} {enc:?} {begin:?} {resp}");
                    if self.known.insert(key) {
                        let e = if begin.is_some() {
                            entry_for(path, wild, Some(begin), p)
                        } else if p.body().len() > CHUNK && !wild {
                            first(path, enc).and_then(|p| entry_for(path, wild, Some(None), &p))
                        } else {
                            entry_for(path, wild, None, p)
                        };
                        if let Some(e) = e {
                            new.push((e, path.to_string()))
                        }
                    }
                    out.push(json!({"path": hx(path), "enc": enc.unwrap_or(""), "begin": begin.map(|b| b.to_string()).unwrap_or_default(), "resp": resp}));
                }
            };
            // the maps are borrowed from the router for as long as it lives
            let router: &'static AssetRouter<'static> = unsafe { &*(&self.router as *const _) };
            if wild {
                each(&mut router.get_fallback_assets().iter(), &|_, _| None)
            } else {
                let m = router.get_assets();
                each(&mut m.iter(), &|p, e| m.get(p, e.map(enc_of), Some(0)).cloned())
            }
        }
        self.seen.extend(new);
        let n = if wild { self.router.get_fallback_assets().len() } else { self.router.get_assets().len() };
        out.sort_by_key(|v| v.to_string());
        (out, n)
    }

    fn observe(&mut self, r: &mut R, gets: &[(bool, String, Option<String>, Option<usize>)]) -> Value {
        let (held, count) = self.listing(false);
        let (fallback, fcount) = self.listing(true);
        let gets: Vec<Value> = gets
            .iter()
            .map(|(fb, path, enc, begin)| {
                let enc_ = enc.as_deref().map(enc_of);
                let got = if *fb {
                    self.router.get_fallback_assets().get(path.as_str(), enc_, *begin)
                } else {
                    self.router.get_assets().get(path.as_str(), enc_, *begin)
                };
                json!({"fallback": fb, "path": hx(path), "enc": enc.clone().unwrap_or_default(), "begin": begin.map(|b| b.to_string()).unwrap_or_default(),
                       "got": got.map(response_json).into_iter().collect::<Vec<_>>()})
            })
            .collect();
        let mut o = json!({"held": held, "count": count, "fallback": fallback, "fallbackCount": fcount, "gets": gets, "root": hx(self.router.root_hash())});
        if let Some(t) = &self.tree {
            let t = t.borrow();
            let mut acc: Option<HashTree> = None;
            self.seen.shuffle(r);
            for (e, path) in &self.seen {
                if let Ok(w) = t.witness(e, path) {
                    acc = Some(match acc {
                        None => w,
                        Some(a) => merge_hash_trees(a, w),
                    })
                }
            }
            o["full"] = acc.map(|a| Term::from_lib(&a).json()).unwrap_or(json!(["none"]));
        }
        o
    }

    fn ask(&mut self, cert: &[u8], p: &Probe) -> Value {
        let x = &self.x;
        let req = HttpRequest::builder()
            .with_method(Method::from_bytes(p.method.as_bytes()).unwrap())
            .with_url(p.url.clone())
            .with_headers(p.headers.clone())
            .with_body(p.body.clone())
            .build();
        let got = guard(|| self.router.serve_asset(cert, &req));
        let mut v = json!({"method": p.method, "url": p.url, "headers": headers_json(&p.headers), "body": hx(&p.body)});
        match got {
            Err(_) => {
                v["got"] = json!(["panic"]);
                v["outcome"] = json!(["rejected"]);
            }
            Ok(Err(_)) => {
                v["got"] = json!(["refused"]);
                v["outcome"] = json!(["rejected"]);
            }
            Ok(Ok(resp)) => {
                v["got"] = json!(["ok", response_json(&resp)]);
                let out = guard(|| verify_request_response_pair(req, resp, &x.canister, x.now, x.offset, &x.root, 2));
                v["outcome"] = match out {
                    Err(_) => json!(["panic"]),
                    Ok(Err(_)) => json!(["rejected"]),
                    Ok(Ok(i)) => {
                        let c: Vec<Value> = i
                            .response
                            .iter()
                            .map(|s| {
                                json!({"status": s.status_code.map(|c| c.to_string()).unwrap_or_default(), "headers": headers_json(&s.headers), "sha": hx(sha(&s.body))})
                            })
                            .collect();
                        json!(["ok", i.verification_version.to_string(), c])
                    }
                };
            }
        }
        v
    }

    fn probe(&mut self, r: &mut R, probes: &[Probe]) -> Value {
        let data = self.router.root_hash();
        let (canister, now) = (self.x.canister.clone(), self.x.now as u64);
        let cert = simple_cert(r, &mut self.x.led, &canister, &data, now, false);
        Value::Array(probes.iter().map(|p| self.ask(&cert, p)).collect())
    }
}

type Gets = Vec<(bool, String, Option<String>, Option<usize>)>;
#[allow(clippy::type_complexity)]
fn history(r: &mut R, pool: &[A], foreign: &[Ent], shared: bool, ops: &[Op], last_only: bool, ask: &dyn Fn(&mut R) -> (Gets, Vec<Probe>)) -> Value {
    let mut w = World::new(r, shared, foreign);
    let mut steps = vec![];
    for (i, op) in ops.iter().enumerate() {
        let result = w.apply(r, pool, op);
        let done = result == "panic";
        let mut o = json!({});
        if !done {
            let (gets, probes) = ask(r);
            let watch = !last_only || i + 1 == ops.len();
            // entries must be seen while they are held
            let seen = guard(|| w.observe(r, &gets));
            match seen {
                Ok(s) if watch => {
                    o = s;
                    o["probes"] = w.probe(r, &probes)
                }
                Ok(s) => {
                    for k in ["held", "fallback", "count", "fallbackCount"] {
                        o[k] = s[k].clone()
                    }
                    o["gets"] = json!([]);
                }
                Err(_) => o = json!({"held": [], "count": -1, "fallback": [], "fallbackCount": -1, "gets": []}),
            }
        }
        o["op"] = op.json();
        o["result"] = result;
        steps.push(o);
        if done {
            break;
        }
    }
    let mut v = json!({"kind": "router", "assets": pool.iter().map(|a| a.json()).collect::<Vec<_>>(), "steps": steps});
    if !foreign.is_empty() {
        v["foreign"] = Value::Array(foreign.iter().map(|e| e.json()).collect())
    }
    v
}

// ---- random histories ----------------------------------------------------------------------
const ENCODINGS: &[(&str, &str)] = &[("br", ".br"), ("gzip", ".gz"), ("zstd", ".zst"), ("deflate", ".zz"), ("identity", "")];
const BASES: &[&str] = &["a", "b", "index.html", "d/a", "d/b.js", "/d/c", "/e", "d//f", "\u{e9} x", "", "/", "d/", "a%20b", "a?b#c", "//g", "http_expr", "d/e/f.css", "d/f", "g", "a/a/a/b/b/b/a/b/a/b/a/b/a/b/c"];
const PLACES: &[&str] = &["/", "", "/a", "a", "/d", "d", "/d/", "/d/a", "d/b.js", "/d/e", "/d/e/", "/e", "/e/", "//", "/x", "/x/y", "/index.html", "//d//", "/d/d/d/d/d/d/d/d/d/d/d/d/d/d", "/a/a/a/b/b/b/a/b/a/b/a/b/a/b"];
const TYPES: &[&str] = &["text/html", "", "text/html; charset=utf-8"];

fn some_len(r: &mut R, large: bool) -> usize {
    if large && chance(r, 45) {
        *pick(r, &[CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1, 2 * CHUNK - 1, 3 * CHUNK + 5, 5 * CHUNK, 6 * CHUNK + 1])
    } else {
        length(r, &[0, 1, 2, 20])
    }
}
fn some_headers(r: &mut R) -> Headers {
    let n = size(r, 3);
    (0..n)
        .map(|_| {
            (
                pick(r, &["cache-control", "Cache-Control", "x-h", "X-Other", "content-type", "vary", "Set-Cookie"]).to_string(),
                pick(r, &["", "1", "public, max-age=31536000", "v\u{e9}"]).to_string(),
            )
        })
        .collect()
}
fn some_encs(r: &mut R) -> Encs {
    let mut v: Encs = vec![];
    for (n, p) in ENCODINGS {
        if chance(r, 35) {
            let p = if chance(r, 20) { pick(r, &[".br", ".x", "", ".gz"]).to_string() } else { p.to_string() };
            v.push((n.to_string(), p))
        }
    }
    if chance(r, 30) {
        v.shuffle(r)
    }
    if chance(r, 5) {
        let e = v.clone();
        v.extend(e)
    }
    v
}
fn some_type(r: &mut R) -> Option<String> {
    chance(r, 60).then(|| pick(r, TYPES).to_string())
}
fn glob_tokens(r: &mut R, nested: bool) -> Vec<Tok> {
    let n = r.gen_range(1..5);
    let mut v: Vec<Tok> = vec![];
    for i in 0..n {
        let last_star = matches!(v.last(), Some(Tok::Star));
        let c = *pick(r, &['a', 'b', 'd', '.', '/', 'j', 's', 'r']);
        let t = match r.gen_range(0..14) {
            0..=3 => Tok::C(c),
            4 => Tok::One,
            5..=7 if !last_star => Tok::Star,
            8 => Tok::Class(chance(r, 40), if chance(r, 50) { vec![('a', 'c')] } else { vec![('a', 'a'), ('c', 'z')] }),
            9 if !nested => Tok::Alt((0..r.gen_range(1..4)).map(|_| glob_tokens(r, true)).collect()),
            10 | 11 if i == 0 && !nested => Tok::Prefix,
            12 if i > 0 && i + 1 == n && !nested && !matches!(v.last(), Some(Tok::Prefix)) => Tok::Suffix,
            13 if i > 0 && i + 1 < n && !nested && !matches!(v.last(), Some(Tok::Prefix)) => Tok::Between,
            _ => Tok::C(c),
        };
        v.push(t);
    }
    v
}
fn some_glob(r: &mut R) -> Vec<Tok> {
    let lit = |s: &str| s.chars().map(Tok::C).collect::<Vec<_>>();
    match r.gen_range(0..8) {
        0 => vec![Tok::Star],
        1 => [vec![Tok::Prefix], vec![Tok::Star], lit(".js")].concat(),
        2 => vec![Tok::Prefix, Tok::Star, Tok::C('.'), Tok::Alt(vec![lit("js"), lit("html"), lit("css")])],
        3 => [lit("d"), vec![Tok::Suffix]].concat(),
        4 => [lit("d"), vec![Tok::Between], vec![Tok::Star]].concat(),
        _ => glob_tokens(r, false),
    }
}
fn some_cfg(r: &mut R, pool: &[A]) -> Cfg {
    match r.gen_range(0..100) {
        0..=49 => {
            let mut path = pick(r, pool).path.clone();
            if chance(r, 10) {
                path = pick(r, PLACES).to_string()
            }
            let nf = *pick(r, &[0usize, 0, 1, 1, 2, 3, 5, 12]);
            let na = *pick(r, &[0usize, 0, 1, 1, 2, 3, 5, 12]);
            Cfg::File {
                path,
                ty: some_type(r),
                headers: some_headers(r),
                fallbacks: (0..nf).map(|_| (pick(r, PLACES).to_string(), *pick(r, &[None, Some(200), Some(404), Some(503)]))).collect(),
                aliases: (0..na).map(|_| pick(r, PLACES).to_string()).collect(),
                encs: some_encs(r),
            }
        }
        50..=76 => Cfg::Pattern { glob: some_glob(r), ty: some_type(r), headers: some_headers(r), encs: some_encs(r) },
        77..=96 => Cfg::Redirect {
            from: pick(r, PLACES).to_string(),
            to: pick(r, &["/", "/new", "https://example.com/\u{e9}", ""]).to_string(),
            permanent: chance(r, 50),
        },
        _ => Cfg::Invalid(pick(r, &["[", "{a", "[z-a]", "a[b"]).to_string()),
    }
}

fn some_quality(r: &mut R) -> String {
    pick(r, &["", "", "", ";q=1", "; q=0.5", ";q=0", " ; Q = 0.0 ", ";q=0.001", ";q=x", ";x=0", ";q=0.9;q=0", ";q"]).to_string()
}
fn some_accept(r: &mut R) -> String {
    let n = size(r, 4);
    (0..n)
        .map(|_| {
            let e = *pick(r, &["br", "gzip", "zstd", "deflate", "identity", "BR", "GZip", "x-gzip", "*", "", "b", "brotli"]);
            format!("{}{e}{}{}", pick(r, &["", " ", "\t"]), some_quality(r), pick(r, &["", " "]))
        })
        .collect::<Vec<_>>()
        .join(",")
}
fn some_range(r: &mut R) -> String {
    let k = r.gen_range(0..7) * CHUNK;
    match r.gen_range(0..12) {
        0..=4 => format!("bytes={k}-"),
        5 => format!("bytes={}-", k + 1),
        6 => format!("bytes={}-{}", k, k + r.gen_range(0..3)),
        7 => format!("bytes={}-{}", k + 5, k),
        8 => format!("bytes=0{k}-"),
        9 => format!(" bytes=+{k}-"),
        10 => pick(r, &["", "bytes", "bytes=", "bytes=-", "bytes=-5", "bytes=1-2-3", "items=0-", "Bytes=0-", "bytes=0", "bytes= 0-", "bytes=0-,5-"]).to_string(),
        _ => pick(r, &["bytes=18446744073709551615-", "bytes=18446744073709551616-", "bytes=0-18446744073709551616", "bytes=0-18446744073709551615"]).to_string(),
    }
}
fn some_probe(r: &mut R, places: &[String]) -> Probe {
    let mut u = pick(r, places).clone();
    match r.gen_range(0..12) {
        0 | 1 => u = format!("{}/{}", u.trim_end_matches('/'), pick(r, &["a", "zz", "a/b", "d/", "d/d/d/d/d/d/d/d/d/d/d/d/d/d/d"])),
        2 => u.push('/'),
        3 => u = format!("/{u}"),
        4 => u = u.trim_end_matches('/').to_string(),
        _ => {}
    }
    if !u.starts_with('/') {
        u = format!("/{u}")
    }
    let mut url = encode_path(r, &u);
    if chance(r, 8) {
        url = format!("https://x.icp0.io{url}")
    } else if chance(r, 1) {
        url = pick(r, &["", "/a b", "https://x.icp0.io", "/%ff"]).to_string()
    }
    if chance(r, 5) {
        url.push_str(*pick(r, &["?", "?a=b", "?a=b#c"]))
    } else if chance(r, 3) {
        url.push_str("#x")
    }
    let mut headers = vec![];
    if chance(r, 60) {
        headers.push((pick(r, &["Accept-Encoding", "accept-encoding", "ACCEPT-ENCODING"]).to_string(), some_accept(r)))
    }
    if chance(r, 25) {
        headers.push((pick(r, &["range", "Range", "RANGE"]).to_string(), some_range(r)))
    }
    if chance(r, 30) {
        headers.extend(random_headers(r, 2))
    }
    if chance(r, 4) {
        headers.push(("accept-encoding".into(), some_accept(r)))
    }
    headers.shuffle(r);
    let mut p = get(url, headers);
    if chance(r, 4) {
        p.method = pick(r, &["POST", "HEAD", "OPTIONS"]).to_string()
    }
    if chance(r, 2) {
        p.body = vec![1]
    }
    p
}

fn random_history(r: &mut R, label: &str) -> Value {
    let large = chance(r, if label == "chunks" { 100 } else { 12 });
    let config_heavy = label == "config";
    let nb = r.gen_range(1..4);
    let bases: Vec<&str> = (0..nb).map(|_| *pick(r, BASES)).collect();
    let mut pool = vec![];
    for b in &bases {
        for v in 0..r.gen_range(1..3) {
            pool.push(A::new(b, some_len(r, large), v))
        }
        for (_, p) in ENCODINGS {
            if chance(r, 40) {
                let (n, v) = (some_len(r, large), r.gen_range(2..5));
                pool.push(A::new(&format!("{b}{p}"), n, v))
            }
        }
    }
    let foreign: Vec<Ent> = if chance(r, 15) {
        (0..r.gen_range(1..3))
            .map(|_| {
                let k = *pick(r, &["response", "full", "skip"]);
                Ent { wild: chance(r, 50), path: pick(r, PLACES).to_string(), what: random_what(r, k) }
            })
            .collect()
    } else {
        vec![]
    };
    let nc = r.gen_range(1..4);
    let cfgs: Vec<Cfg> = (0..nc).map(|_| some_cfg(r, &pool)).collect();
    let len = if config_heavy { r.gen_range(1..4) } else { r.gen_range(2..7) };
    let ops: Vec<Op> = (0..len)
        .map(|i| {
            let n = r.gen_range(1..=pool.len().min(4));
            let mut a: Vec<usize> = (0..pool.len()).collect::<Vec<_>>().choose_multiple(r, n).copied().collect();
            if chance(r, 30) {
                a = (0..pool.len()).collect();
            }
            // most calls share their configuration, as the interface asks for
            let mut c = cfgs.clone();
            match r.gen_range(0..10) {
                0 => c = vec![],
                1 => c = vec![some_cfg(r, &pool)],
                2 => c.shuffle(r),
                3 => c.insert(0, some_cfg(r, &pool)),
                _ => {}
            }
            if chance(r, 6) {
                // headers that only certification may set; the order of several assets is not determined
                a.truncate(1);
                let n = pick(r, &["IC-CertificateExpression", "ic-certificateexpression"]).to_string();
                let v = pick(r, &["", "x", "default_certification(ValidationArgs{no_certification:Empty{}})"]).to_string();
                let mut headers = some_headers(r);
                headers.insert(0, (n, v));
                let at = r.gen_range(0..=c.len());
                let cfg = if chance(r, 60) {
                    Cfg::File {
                        path: pool[a[0]].path.clone(),
                        ty: some_type(r),
                        headers,
                        fallbacks: vec![(pick(r, PLACES).to_string(), None)],
                        aliases: vec![pick(r, PLACES).to_string()],
                        encs: some_encs(r),
                    }
                } else {
                    Cfg::Pattern { glob: some_glob(r), ty: some_type(r), headers, encs: some_encs(r) }
                };
                c.insert(at, cfg)
            }
            match r.gen_range(0..10) {
                0..=2 if i > 0 => Op::Delete(a, c),
                3 if i > 0 && chance(r, 25) => Op::Clear,
                _ => Op::Certify(a, c),
            }
        })
        .collect();
    let mut places: Vec<String> = pool.iter().map(|a| a.path.clone()).collect();
    for c in &cfgs {
        match c {
            Cfg::File { fallbacks, aliases, .. } => {
                places.extend(aliases.clone());
                places.extend(fallbacks.iter().map(|f| f.0.clone()))
            }
            Cfg::Redirect { from, .. } => places.push(from.clone()),
            _ => {}
        }
    }
    let ask = |r: &mut R| {
        let gets = (0..3)
            .map(|_| {
                let path = if chance(r, 80) { pick(r, &places).clone() } else { pick(r, PLACES).to_string() };
                let path = if chance(r, 50) && !path.starts_with('/') { format!("/{path}") } else { path };
                (chance(r, 30), path, chance(r, 30).then(|| pick(r, ENCODINGS).0.to_string()), chance(r, 20).then(|| r.gen_range(0..3) * CHUNK))
            })
            .collect();
        (gets, (0..6).map(|_| some_probe(r, &places)).collect())
    };
    let shared = chance(r, 85);
    history(r, &pool, &foreign, shared, &ops, false, &ask)
}

// ---- scenarios -----------------------------------------------------------------------------
fn scenario(r: &mut R, s: &Value) -> Value {
    let text = |v: &Value| v.as_str().unwrap().to_string();
    let path = |v: &Value| String::from_utf8(hex::decode(v.as_str().unwrap()).unwrap()).unwrap();
    let list = |v: &Value| v.as_array().unwrap().clone();
    let pool: Vec<A> = list(&s["assets"])
        .iter()
        .enumerate()
        .map(|(i, a)| {
            // lengths in halves of a chunk
            let n = a["len"].as_u64().unwrap() as usize;
            let d = a["more"].as_i64().unwrap_or(if n % 2 == 1 { 7 } else { 0 });
            A::new(&path(&a["path"]), ((n / 2 * CHUNK) as i64 + d) as usize, i as u64 % 5)
        })
        .collect();
    let ids = |v: &Value| list(v).iter().map(|i| i.as_u64().unwrap() as usize - 1).collect::<Vec<_>>();
    let configs = list(&s["configs"]);
    let cfgs = |v: &Value| {
        let v = match v.as_u64() {
            Some(k) => &configs[k as usize - 1],
            None => v,
        };
        list(v).iter().map(Cfg::from).collect::<Vec<_>>()
    };
    let ops: Vec<Op> = list(&s["ops"])
        .iter()
        .map(|o| match o[0].as_str().unwrap() {
            "certify" => Op::Certify(ids(&o[1]), cfgs(&o[2])),
            "delete" => Op::Delete(ids(&o[1]), cfgs(&o[2])),
            _ => Op::Clear,
        })
        .collect();
    let headers = |v: &Value| list(v).iter().map(|h| (text(&h[0]), text(&h[1]))).collect::<Headers>();
    let urls: Vec<String> = list(&s["urls"]).iter().map(text).collect();
    // header lists, whose values may name a range in chunks: "chunk:2+1"
    let value = |h: String| match h.strip_prefix("chunk:") {
        Some(t) => {
            let (k, d) = t.split_once('+').unwrap();
            format!("bytes={}-", k.parse::<usize>().unwrap() * CHUNK + d.parse::<usize>().unwrap())
        }
        None => h,
    };
    let hs: Vec<Headers> = list(&s["headers"]).iter().map(|v| headers(v).into_iter().map(|(n, v)| (n, value(v))).collect()).collect();
    let most = s["most"].as_u64().unwrap_or(12) as usize;
    let places: Vec<String> = urls.clone();
    let ask = |r: &mut R| {
        let gets = (0..2).map(|_| (chance(r, 30), pick(r, &places).clone(), None, None)).collect();
        let mut all: Vec<(usize, usize)> = (0..urls.len()).flat_map(|u| (0..hs.len()).map(move |h| (u, h))).collect();
        if all.len() > most {
            all.shuffle(r);
            all.truncate(most)
        }
        (gets, all.into_iter().map(|(u, h)| get(urls[u].clone(), hs[h].clone())).collect())
    };
    history(r, &pool, &[], true, &ops, true, &ask)
}

pub fn run(n: usize, scen: &[Value], label: &str) -> Vec<Value> {
    assert_eq!(ASSET_CHUNK_SIZE, CHUNK, "the chunk size is part of the interface");
    let mut out: Vec<Value> = scen.par_iter().enumerate().map(|(i, s)| scenario(&mut rng("asset-scen", i as u64), s)).collect();
    out.par_extend((0..n).into_par_iter().map(|i| random_history(&mut rng(&format!("asset-{label}"), i as u64), label)));
    out
}
