//! C18 - C20, C29, C30: hashes of requests, responses and maps; URLs; the canister interface.
use crate::certtree::*;
use crate::util::*;
use crate::verify::*;
use candid::{CandidType, Decode, Deserialize, Encode};
use ic_http_certification::cel::DefaultRequestCertification;
use ic_http_certification::{
    filter_response_headers, request_hash, response_hash, response_headers_hash, HttpRequest, HttpResponse, HttpUpdateRequest,
    HttpUpdateResponse, Method, ResponseHeaders, StatusCode,
};
use ic_representation_independent_hash::{hash, representation_independent_hash, Value as RihValue};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

fn seen(f: impl FnOnce() -> Value) -> Value {
    guard(f).unwrap_or_else(|_| json!(["panic"]))
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

// ---- C20 -----------------------------------------------------------------------------------
#[derive(Clone)]
enum V {
    S(String),
    B(Vec<u8>),
    N(u64),
    A(Vec<V>),
}
impl V {
    fn lib(&self) -> RihValue {
        match self {
            V::S(s) => RihValue::String(s.clone()),
            V::B(b) => RihValue::Bytes(b.clone()),
            V::N(n) => RihValue::Number(*n),
            V::A(a) => RihValue::Array(a.iter().map(|v| v.lib()).collect()),
        }
    }
    fn json(&self) -> Value {
        match self {
            V::S(s) => json!(["s", hx(s)]),
            V::B(b) => json!(["b", hx(b)]),
            V::N(n) => json!(["n", n.to_string()]),
            V::A(a) => json!(["a", a.iter().map(|v| v.json()).collect::<Vec<_>>()]),
        }
    }
    fn from(v: &Value) -> V {
        let h = || hex::decode(v[1].as_str().unwrap()).unwrap();
        match v[0].as_str().unwrap() {
            "s" => V::S(String::from_utf8(h()).unwrap()),
            "b" => V::B(h()),
            "n" => V::N(v[1].as_str().unwrap().parse().unwrap()),
            _ => V::A(v[1].as_array().unwrap().iter().map(V::from).collect()),
        }
    }
    fn random(r: &mut R, depth: usize) -> V {
        match r.gen_range(0..if depth == 0 { 3 } else { 4 }) {
            0 => V::S(random_text(r)),
            1 => {
                let n = length(r, &[0usize, 1, 2, 32, 64]);
                V::B(bytes(r, n))
            }
            2 => V::N(*pick(r, &[0u64, 1, 127, 128, 129, 255, 256, 16383, 16384, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63])),
            _ => {
                let n = if depth >= 3 { size(r, 3) } else { r.gen_range(0..4) };
                V::A((0..n).map(|_| V::random(r, depth - 1)).collect())
            }
        }
    }
}
fn random_text(r: &mut R) -> String {
    let pool = ["", "a", "A", "b", "ab", ":ic-cert-status", "name", "\u{e9}", "\u{1F600}", "\u{0}", " ", "a ", "200", "\u{ff}"];
    let mut s = pick(r, &pool).to_string();
    if chance(r, 20) {
        s.push_str(*pick(r, &pool[..]))
    }
    if chance(r, 3) {
        let n = length(r, &[30, 100, 300]);
        let more: String = (0..n).map(|_| *pick(r, &['a', 'b', 'c', '\u{e9}'])).collect();
        s.push_str(&more)
    }
    s
}
fn rih_run(m: &[(String, V)]) -> Value {
    let lib: Vec<(String, RihValue)> = m.iter().map(|(k, v)| (k.clone(), v.lib())).collect();
    json!({
        "kind": "rih",
        "map": m.iter().map(|(k, v)| json!([hx(k), v.json()])).collect::<Vec<_>>(),
        "got": seen(|| hx(representation_independent_hash(&lib))),
    })
}
pub fn run_rih(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .map(|s| {
            let m: Vec<(String, V)> = s["map"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| (String::from_utf8(hex::decode(e[0].as_str().unwrap()).unwrap()).unwrap(), V::from(&e[1])))
                .collect();
            rih_run(&m)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().flat_map_iter(|i| {
        let mut r = rng("rih", i as u64);
        let k = size(&mut r, 6);
        let mut m: Vec<(String, V)> = (0..k)
            .map(|_| {
                let k = random_text(&mut r);
                (k, V::random(&mut r, 3))
            })
            .collect();
        if k > 0 && chance(&mut r, 30) {
            let e = pick(&mut r, &m).clone();
            m.push(e)
        }
        let a = rih_run(&m);
        m.shuffle(&mut r);
        vec![a, rih_run(&m)]
    }));
    for i in 0..20u64 {
        let mut r = rng("plainhash", i);
        let len = *pick(&mut r, &[0usize, 1, 55, 56, 63, 64, 65, 127, 128, 1000]);
        let d = bytes(&mut r, len);
        out.push(json!({"kind": "hash", "data": hx(&d), "got": hx(hash(&d))}));
    }
    out
}

// ---- C18 -----------------------------------------------------------------------------------
struct Rq {
    x: X,
    hs: Vec<String>,
    ps: Vec<String>,
}
fn rq_run(q: &Rq) -> Value {
    let c = DefaultRequestCertification::new(strs(&q.hs), strs(&q.ps));
    json!({
        "kind": "request",
        "req": {"method": q.x.method, "url": q.x.url, "headers": headers_json(&q.x.rqh), "body": hx(&q.x.rqb)},
        "headers": q.hs, "params": q.ps,
        "got": seen(|| match request_hash(&q.x.request(), &c) {
            Ok(h) => json!(["ok", hx(h)]),
            Err(_) => json!(["err"]),
        }),
    })
}
fn texts(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}
fn pairs(v: &Value) -> Headers {
    v.as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect()
}
const FRAGMENTS: &[&str] = &[
    "q=1", "q", "q=", "Q=1", "r=2", "r=2=3", "=x", "", "q%3D1", "a%20b=1", "qq=1", "q=1", "id=7", "q;r=1", "q=%26", "q=a/b?c", "r",
    "q=a+b", "q=a%20b", "q=A", "a+b=1", "q=\u{e9}", "q=%c3%a9", "%71=1", "q=1;r=2", "r=", "q[]=1", "q =1", " q=1", "q=%", "id=%4a", "id=%4A",
];
pub fn run_request(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("request-scen", i as u64);
            let mut x = base(&mut r);
            x.method = s["method"].as_str().unwrap().into();
            x.url = s["url"].as_str().unwrap().into();
            x.rqh = pairs(&s["headers"]);
            x.rqb = s["body"].as_str().unwrap().as_bytes().to_vec();
            rq_run(&Rq { x, hs: texts(&s["certified"]), ps: texts(&s["params"]) })
        })
        .collect();
    out.par_extend((0..n).into_par_iter().flat_map_iter(|i| {
        let mut r = rng("request", i as u64);
        let mut x = base(&mut r);
        x.method = pick(&mut r, METHODS).to_string();
        x.rqh = random_headers(&mut r, 6);
        let len = length(&mut r, &[0usize, 0, 1, 64, 300]);
        x.rqb = bytes(&mut r, len);
        let origin = *pick(&mut r, &["", "", "https://ic0.app", "http://a:80", "x y", "//h"]);
        let path = if chance(&mut r, 20) {
            let p = unusual_path(&mut r);
            encode_path(&mut r, &p)
        } else {
            pick(&mut r, &["/", "/a", "/a/b", "/%20", "/%ff", "", "/a b"]).to_string()
        };
        x.url = format!("{origin}{path}");
        if chance(&mut r, 80) {
            let k = size(&mut r, 5);
            let q: Vec<&str> = (0..k).map(|_| *pick(&mut r, FRAGMENTS)).collect();
            x.url.push('?');
            x.url.push_str(&q.join("&"));
        }
        if chance(&mut r, 20) {
            x.url.push_str(*pick(&mut r, &["#", "#f", "#?q=1", "#a&q=2"]))
        }
        let hs = lists(&mut r, 6);
        let np = r.gen_range(0..4);
        let ps: Vec<String> =
            ["q", "Q", "r", "id", "a%20b", "a b", "", "qq", "q%3D1", "a+b", "q[]", "%71", "q "].choose_multiple(&mut r, np).map(|s| s.to_string()).collect();
        let q = Rq { x, hs, ps };
        // and a relative of it
        let mut o = Rq { x: q.x.clone(), hs: q.hs.clone(), ps: q.ps.clone() };
        match r.gen_range(0..8) {
            0 => o.x.rqh.shuffle(&mut r),
            1 => o.x.rqh = o.x.rqh.iter().map(|(n, v)| (n.to_ascii_uppercase(), v.clone())).collect(),
            2 => o.hs = o.hs.iter().map(|n| n.to_ascii_uppercase()).collect(),
            3 => {
                o.x.rqh.pop();
            }
            4 => o.x.rqh.push(("X-Cert".into(), "z".into())),
            5 => o.ps.push("r".into()),
            6 => o.x.rqb.push(0),
            _ => {
                if let Some(h) = o.x.rqh.first_mut() {
                    h.1.push(' ')
                }
            }
        }
        vec![rq_run(&q), rq_run(&o)]
    }));
    out
}

// ---- C19 -----------------------------------------------------------------------------------
fn rs_run(x: &X, rc: &Rc, given: Option<[u8; 32]>) -> Value {
    let c = lib_rc(rc);
    let resp = x.response();
    json!({
        "kind": "response",
        "resp": {"status": x.status.to_string(), "headers": headers_json(&x.rsh), "body": hx(&x.rsb)},
        "rc": ce_json(&Ce::Response(rc.clone()))[1],
        "given": match given { Some(h) => json!(["hash", hx(h)]), None => json!(["none"]) },
        "got": seen(|| hx(response_hash(&resp, &c, given))),
        "filtered": seen(|| {
            let f = filter_response_headers(&resp, &c);
            json!({"headers": headers_json(&f.headers), "certificate": f.certificate.map(|c| json!([c])).unwrap_or(json!([])),
                "hash": hx(response_headers_hash(&(x.status as u64), &filter_response_headers(&resp, &c)))})
        }),
    })
}
pub fn run_response(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("response-scen", i as u64);
            let mut x = base(&mut r);
            x.status = s["status"].as_u64().unwrap() as u16;
            x.rsh = pairs(&s["headers"]);
            x.rsb = s["body"].as_str().unwrap().as_bytes().to_vec();
            let names = texts(&s["rc"][1]);
            let rc = if s["rc"][0] == "certified" { Rc::Certified(names) } else { Rc::Excluded(names) };
            rs_run(&x, &rc, None)
        })
        .collect();
    out.par_extend((0..n).into_par_iter().flat_map_iter(|i| {
        let mut r = rng("response", i as u64);
        let mut x = base(&mut r);
        x.status = if chance(&mut r, 40) { *pick(&mut r, &[100, 127, 128, 200, 206, 255, 256, 404, 500, 511, 512, 999]) } else { status(&mut r) };
        x.rsh = random_headers(&mut r, 6);
        for (n, pct) in [("IC-CertificateExpression", 60), ("IC-Certificate", 40), ("ic-certificateExpression", 15), ("Ic-Certificate", 15), (" IC-Certificate", 3), ("IC-Certificate ", 3), ("IC-CertificateExpression ", 3)] {
            if chance(&mut r, pct) {
                let at = r.gen_range(0..=x.rsh.len());
                let v = pick(&mut r, &["", "x", "certificate=:AA==:, tree=:AA==:"]).to_string();
                x.rsh.insert(at, (n.to_string(), v))
            }
        }
        let len = length(&mut r, &[0usize, 1, 64, 300]);
        x.rsb = bytes(&mut r, len);
        let mut ns = lists(&mut r, 6);
        for n in ["IC-Certificate", "ic-certificateexpression"] {
            if chance(&mut r, 20) {
                ns.push(n.into())
            }
        }
        let rc = if chance(&mut r, 50) { Rc::Certified(ns) } else { Rc::Excluded(ns) };
        let given = match r.gen_range(0..6) {
            0 => Some(sha(&x.rsb)),
            1 => Some(sha(b"other")),
            _ => None,
        };
        let a = rs_run(&x, &rc, given);
        match r.gen_range(0..5) {
            0 => x.rsh.shuffle(&mut r),
            1 => x.rsh = x.rsh.iter().map(|(n, v)| (n.to_ascii_uppercase(), v.clone())).collect(),
            2 => x.status += 1,
            3 => {
                x.rsh.pop();
            }
            _ => x.rsb.push(0),
        }
        if x.status > 999 {
            x.status = 200
        }
        vec![a, rs_run(&x, &rc, given)]
    }));
    // header lists hashed as they stand
    for i in 0..30u64 {
        let mut r = rng("headershash", i);
        let hs: Headers = random_headers(&mut r, 5).into_iter().map(|(n, v)| (n.to_ascii_lowercase(), v)).collect();
        let status = *pick(&mut r, &[0u64, 127, 128, 16384, u64::MAX]);
        let h = ResponseHeaders { headers: hs.clone(), certificate: Some("x".into()) };
        out.push(json!({"kind": "headers", "status": status.to_string(), "headers": headers_json(&hs),
            "got": seen(|| hx(response_headers_hash(&status, &h)))}));
    }
    out
}

// ---- C29 -----------------------------------------------------------------------------------
fn url_run(url: &str) -> Value {
    let view = |p: Result<String, ic_http_certification::HttpCertificationError>,
                q: Result<Option<String>, ic_http_certification::HttpCertificationError>| {
        json!([
            match p {
                Ok(p) => json!(["ok", hx(p)]),
                Err(_) => json!(["err"]),
            },
            match q {
                Ok(Some(q)) => json!(["ok", [hx(q)]]),
                Ok(None) => json!(["ok", []]),
                Err(_) => json!(["err"]),
            }
        ])
    };
    let q = HttpRequest::get(url).build();
    let u = HttpRequest::get(url).build_update();
    json!({"kind": "url", "url": hx(url), "query": seen(|| view(q.get_path(), q.get_query())),
        "update": seen(|| view(u.get_path(), u.get_query()))})
}
pub const URL_TOKENS: &[&str] = &[
    "/", "/", "/", "a", "b", "%41", "%2F", "%", "%4", "%zz", "%ff", "%C3%A9", "?", "#", "=", "&", "http://", "https://", "h", ":", "80",
    "@", "[", "]", "::1", "*", " ", "\u{e9}", "+", "//", "..", "<", "\\", "{", "\"", "|", "\t", "\u{7f}", "^", "`", "~", "!", ";", ",",
    "x://", "1://", "-", "_", ".", "ic0.app", "%00", "%3F", "%25", "%E2%82%AC", "%80",
];
pub fn run_url(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .map(|s| url_run(&s["tokens"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect::<String>()))
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("url", i as u64);
        let k = size(&mut r, 9);
        let start = *pick(&mut r, &["/", "/", "http://ic0.app/", "https://h", "", "http://u:p@h:1/"]);
        let mut s = start.to_string();
        for _ in 0..k {
            let t: &str = if chance(&mut r, 85) { *pick(&mut r, &URL_TOKENS[..16]) } else { *pick(&mut r, URL_TOKENS) };
            s.push_str(t)
        }
        if chance(&mut r, 2) {
            let l = *pick(&mut r, &[65533usize, 65534, 65535, 70000]);
            s.push('/'); // (a long path; the specification walks authorities byte by byte)
            while s.len() < l {
                s.push('a')
            }
            s.truncate(l);
        }
        url_run(&s)
    }));
    out
}

// ---- C30 -----------------------------------------------------------------------------------
/// The canister interface, written down on its own.
#[derive(CandidType, Deserialize, Clone, Debug)]
struct WireRequest {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    certificate_version: Option<u16>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
struct WireUpdateRequest {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
struct WireResponse {
    status_code: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    upgrade: Option<bool>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
struct WireUpdateResponse {
    status_code: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}
fn some<T: ToString>(o: Option<T>) -> Value {
    match o {
        Some(v) => json!(["some", v.to_string()]),
        None => json!(["none"]),
    }
}
fn rq_view(method: &str, url: &str, headers: &[(String, String)], body: &[u8], version: Option<u16>) -> Value {
    json!({"method": method, "url": url, "headers": headers_json(&headers.to_vec()), "body": hx(body), "extra": some(version)})
}
fn rs_view(status: u16, headers: &[(String, String)], body: &[u8], upgrade: Option<bool>) -> Value {
    json!({"status": status.to_string(), "headers": headers_json(&headers.to_vec()), "body": hx(body), "extra": some(upgrade)})
}
fn see_rq(q: &HttpRequest) -> Value {
    rq_view(q.method().as_str(), q.url(), q.headers(), q.body(), q.certificate_version())
}
fn see_urq(q: &HttpUpdateRequest) -> Value {
    rq_view(q.method().as_str(), q.url(), q.headers(), q.body(), None)
}
fn see_rs(s: &HttpResponse) -> Value {
    rs_view(s.status_code().as_u16(), s.headers(), s.body(), s.upgrade())
}
fn see_urs(s: &HttpUpdateResponse) -> Value {
    rs_view(s.status_code().as_u16(), s.headers(), s.body(), None)
}
fn views_rq(q: &HttpRequest) -> Value {
    seen(|| {
        let e = Encode!(q).unwrap();
        let d = Decode!(&e, HttpRequest).unwrap();
        let w = Decode!(&e, WireRequest).unwrap();
        json!([see_rq(q), see_rq(&d), rq_view(&w.method, &w.url, &w.headers, &w.body, w.certificate_version), d == *q])
    })
}
fn views_urq(q: &HttpUpdateRequest) -> Value {
    seen(|| {
        let e = Encode!(q).unwrap();
        let d = Decode!(&e, HttpUpdateRequest).unwrap();
        let w = Decode!(&e, WireUpdateRequest).unwrap();
        json!([see_urq(q), see_urq(&d), rq_view(&w.method, &w.url, &w.headers, &w.body, None), d == *q])
    })
}
fn views_rs(s: &HttpResponse) -> Value {
    seen(|| {
        let e = Encode!(s).unwrap();
        let d = Decode!(&e, HttpResponse).unwrap();
        let w = Decode!(&e, WireResponse).unwrap();
        json!([see_rs(s), see_rs(&d), rs_view(w.status_code, &w.headers, &w.body, w.upgrade), d == *s])
    })
}
fn views_urs(s: &HttpUpdateResponse) -> Value {
    seen(|| {
        let e = Encode!(s).unwrap();
        let d = Decode!(&e, HttpUpdateResponse).unwrap();
        let w = Decode!(&e, WireUpdateResponse).unwrap();
        json!([see_urs(s), see_urs(&d), rs_view(w.status_code, &w.headers, &w.body, None), d == *s])
    })
}

fn request_ops(start: &str, ops: &[Value], finish: &str) -> Value {
    use ic_http_certification::HttpRequestBuilder;
    let got = seen(|| {
        let url = "/start".to_string();
        let mut b = match start {
            "get" => HttpRequest::get(url),
            "post" => HttpRequest::post(url),
            "put" => HttpRequest::put(url),
            "patch" => HttpRequest::patch(url),
            "delete" => HttpRequest::delete(url),
            "new" => HttpRequestBuilder::new(),
            _ => HttpRequest::builder(),
        };
        for o in ops {
            b = match o[0].as_str().unwrap() {
                "method" => b.with_method(Method::from_bytes(o[1].as_str().unwrap().as_bytes()).unwrap()),
                "url" => b.with_url(o[1].as_str().unwrap()),
                "headers" => b.with_headers(pairs(&o[1])),
                "body" => b.with_body(hex::decode(o[1].as_str().unwrap()).unwrap()),
                _ => b.with_certificate_version(o[1].as_str().unwrap().parse().unwrap()),
            }
        }
        match finish {
            "build" => views_rq(&b.build()),
            "update" => views_urq(&b.build_update()),
            _ => views_urq(&HttpUpdateRequest::from(b.build())),
        }
    });
    json!({"kind": "request", "start": start, "ops": ops, "finish": finish, "got": got})
}
fn response_ops(start: &str, ops: &[Value], finish: &str, after: &[Value]) -> Value {
    use ic_http_certification::HttpResponseBuilder;
    let got = seen(|| {
        let mut b = if start == "new" { HttpResponseBuilder::new() } else { HttpResponse::builder() };
        for o in ops {
            b = match o[0].as_str().unwrap() {
                "status" => b.with_status_code(StatusCode::from_u16(o[1].as_str().unwrap().parse().unwrap()).unwrap()),
                "headers" => b.with_headers(pairs(&o[1])),
                "body" => b.with_body(hex::decode(o[1].as_str().unwrap()).unwrap()),
                "upgrade" => b.with_upgrade(o[1] == "true"),
                _ => b.build().into(),
            }
        }
        let field = |o: &Value| (o[1][0].as_str().unwrap().to_string(), o[1][1].as_str().unwrap().to_string());
        macro_rules! then {
            ($s:ident) => {
                for o in after {
                    match o[0].as_str().unwrap() {
                        "add" => $s.add_header(field(o)),
                        "clear" => $s.headers_mut().clear(),
                        _ => $s.headers_mut().insert(0, field(o)),
                    }
                }
            };
        }
        match finish {
            "build" => {
                let mut s = b.build();
                then!(s);
                views_rs(&s)
            }
            "update" => {
                let mut s = b.build_update();
                then!(s);
                views_urs(&s)
            }
            _ => {
                let mut s = b.build();
                then!(s);
                views_urs(&HttpUpdateResponse::from(s))
            }
        }
    });
    json!({"kind": "response", "start": start, "ops": ops, "finish": finish, "after": after, "got": got})
}

fn some_headers(r: &mut R) -> Value {
    let mut h = random_headers(r, 4);
    if !h.is_empty() && chance(r, 30) {
        let d = pick(r, &h).clone();
        h.push(d)
    }
    if chance(r, 10) {
        h.push((String::new(), "\u{1F600}\n".into()))
    }
    headers_json(&h)
}
fn some_body(r: &mut R) -> Value {
    let n = length(r, &[0usize, 1, 2, 255, 3000]);
    hx(bytes(r, n))
}
fn fill_request(r: &mut R, t: &str) -> Value {
    match t {
        "method" => json!(["method", *pick(r, &["GET", "POST", "HEAD", "PURGE", "get", "OPTIONS", "M-SEARCH"])]),
        "url" => json!(["url", *pick(r, &["", "/", "/a?b=c#d", "https://x/\u{e9}", "not a url", "/%ff"])]),
        "headers" => json!(["headers", some_headers(r)]),
        "body" => json!(["body", some_body(r)]),
        _ => json!(["version", pick(r, &[0u16, 1, 2, 65535]).to_string()]),
    }
}
fn fill_response(r: &mut R, t: &str) -> Value {
    match t {
        "status" => json!(["status", pick(r, &[100u16, 200, 304, 404, 599, 999]).to_string()]),
        "headers" => json!(["headers", some_headers(r)]),
        "body" => json!(["body", some_body(r)]),
        "upgrade" => json!(["upgrade", *pick(r, &["true", "false"])]),
        "rebuild" => json!(["rebuild"]),
        "clear" => json!(["clear"]),
        t => json!([t, [random_text(r), random_text(r)]]),
    }
}

/// Two requests or responses, the second made from the first, and whether they count as equal.
fn compared(r: &mut R) -> Value {
    let change = |r: &mut R, h: &mut Vec<(String, String)>| {
        let n = h.len();
        match r.gen_range(0..6) {
            0 => h.push((random_text(r), random_text(r))),
            _ if n == 0 => h.push(("a".into(), "".into())),
            1 => {
                let i = r.gen_range(0..n);
                h.remove(i);
            }
            2 => {
                let x = pick(r, h).clone();
                h.push(x)
            }
            3 => h.reverse(),
            4 => h.rotate_left(1),
            _ => {
                let i = r.gen_range(0..n);
                if chance(r, 50) {
                    h[i].1.push('x')
                } else {
                    h[i].0 = h[i].0.to_uppercase()
                }
            }
        }
    };
    let n = length(r, &[0usize, 1, 300]);
    let (h, b) = (pairs(&some_headers(r)), bytes(r, n));
    let (mut h2, mut b2) = (h.clone(), b.clone());
    let what = r.gen_range(0..6);
    if what == 0 || chance(r, 10) {
        change(r, &mut h2)
    }
    if what == 1 {
        b2.push(0)
    }
    if chance(r, 50) {
        let upgrades = [None, Some(true), Some(false)];
        let (st, up) = (*pick(r, &[200u16, 404, 206]), *pick(r, &upgrades));
        let st2 = if what == 2 { *pick(r, &[200u16, 404, 206]) } else { st };
        let up2 = if what == 3 { *pick(r, &upgrades) } else { up };
        let make = |st: u16, h: &Vec<(String, String)>, b: &Vec<u8>, up: Option<bool>| {
            let x = HttpResponse::builder().with_status_code(StatusCode::from_u16(st).unwrap()).with_headers(h.clone()).with_body(b.clone());
            match up {
                Some(u) => x.with_upgrade(u).build(),
                None => x.build(),
            }
        };
        let (x, y) = (make(st, &h, &b, up), make(st2, &h2, &b2, up2));
        json!({"kind": "same", "a": see_rs(&x), "b": see_rs(&y), "got": seen(|| json!([x == y, y == x, x == x.clone()]))})
    } else {
        let methods = [Method::GET, Method::POST];
        let versions = [None, Some(1u16), Some(2)];
        let urls = ["/", "/a", "/a?"];
        let (m, v, u) = (pick(r, &methods).clone(), *pick(r, &versions), *pick(r, &urls));
        let m2 = if what == 2 { pick(r, &methods).clone() } else { m.clone() };
        let v2 = if what == 3 { *pick(r, &versions) } else { v };
        let u2 = if what == 4 { *pick(r, &urls) } else { u };
        let make = |m: Method, u: &'static str, h: &Vec<(String, String)>, b: &Vec<u8>, v: Option<u16>| {
            let x = HttpRequest::builder().with_method(m).with_url(u).with_headers(h.clone()).with_body(b.clone());
            match v {
                Some(v) => x.with_certificate_version(v).build(),
                None => x.build(),
            }
        };
        let (x, y) = (make(m, u, &h, &b, v), make(m2, u2, &h2, &b2, v2));
        json!({"kind": "same", "a": see_rq(&x), "b": see_rq(&y), "got": seen(|| json!([x == y, y == x, x == x.clone()]))})
    }
}

fn wire_decode(r: &mut R) -> Value {
    let headers = pairs(&some_headers(r));
    let n = length(r, &[0usize, 1, 300]);
    let body = bytes(r, n);
    if chance(r, 50) {
        let method = pick(r, &["GET", "", "G T", "POST", "GET\n", "\u{e9}", "get", "X!#$%&'*+-.^_`|~9", "A(B"]).to_string();
        let w = WireRequest { method: method.clone(), url: random_text(r), headers, body, certificate_version: *pick(r, &[None, Some(2), Some(65535)]) };
        let e = Encode!(&w).unwrap();
        let got = seen(|| match Decode!(&e, HttpRequest) {
            Ok(q) => json!(["ok", see_rq(&q)]),
            Err(_) => json!(["err"]),
        });
        let u = seen(|| match Decode!(&e, HttpUpdateRequest) {
            Ok(q) => json!(["ok", see_urq(&q)]),
            Err(_) => json!(["err"]),
        });
        json!({"kind": "wirerequest", "wire": rq_view(&w.method, &w.url, &w.headers, &w.body, w.certificate_version), "got": got, "update": u})
    } else {
        let status = *pick(r, &[0u16, 99, 100, 200, 599, 999, 1000, 65535]);
        let w = WireResponse { status_code: status, headers, body, upgrade: *pick(r, &[None, Some(true), Some(false)]) };
        let e = Encode!(&w).unwrap();
        let got = seen(|| match Decode!(&e, HttpResponse) {
            Ok(q) => json!(["ok", see_rs(&q)]),
            Err(_) => json!(["err"]),
        });
        let u = seen(|| match Decode!(&e, HttpUpdateResponse) {
            Ok(q) => json!(["ok", see_urs(&q)]),
            Err(_) => json!(["err"]),
        });
        json!({"kind": "wireresponse", "wire": rs_view(w.status_code, &w.headers, &w.body, w.upgrade), "got": got, "update": u})
    }
}

pub fn run_candid(n: usize, scen: &[Value]) -> Vec<Value> {
    let names = |v: &Value| texts(v);
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("candid-scen", i as u64);
            let finish = s["finish"].as_str().unwrap();
            let start = s["start"].as_str().unwrap();
            if s["kind"] == "request" {
                let ops: Vec<Value> = names(&s["ops"]).iter().map(|t| fill_request(&mut r, t)).collect();
                request_ops(start, &ops, finish)
            } else {
                let ops: Vec<Value> = names(&s["ops"]).iter().map(|t| fill_response(&mut r, t)).collect();
                let after: Vec<Value> = names(&s["after"]).iter().map(|t| fill_response(&mut r, t)).collect();
                response_ops(start, &ops, finish, &after)
            }
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("candid", i as u64);
        let finish = *pick(&mut r, &["build", "update", "convert"]);
        let k = r.gen_range(0..7);
        match r.gen_range(0..4) {
            3 => compared(&mut r),
            0 => {
                let ops: Vec<Value> =
                    (0..k).map(|_| { let t = *pick(&mut r, &["method", "url", "headers", "body", "version"]); fill_request(&mut r, t) }).collect();
                let start = *pick(&mut r, &["get", "post", "put", "patch", "delete", "new", "builder"]);
                request_ops(start, &ops, finish)
            }
            1 => {
                let ops: Vec<Value> =
                    (0..k).map(|_| { let t = *pick(&mut r, &["status", "headers", "body", "upgrade", "rebuild"]); fill_response(&mut r, t) }).collect();
                let j = r.gen_range(0..3);
                let after: Vec<Value> = (0..j).map(|_| { let t = *pick(&mut r, &["add", "add", "first", "clear"]); fill_response(&mut r, t) }).collect();
                response_ops(*pick(&mut r, &["new", "builder"]), &ops, finish, &after)
            }
            _ => wire_decode(&mut r),
        }
    }));
    out
}
