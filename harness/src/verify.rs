//! C05 - C11: requests and responses under every kind of deviation from a certified exchange.
use crate::certs::prune_at;
use crate::term::*;
use crate::util::*;
use crate::world::*;
use base64::{engine::general_purpose::STANDARD as B64, Engine};
use flate2::read::{DeflateDecoder, GzDecoder};
use flate2::write::{DeflateEncoder, GzEncoder};
use flate2::Compression;
use ic_http_certification::{HttpRequest, HttpResponse, Method, StatusCode};
use ic_response_verification::verify_request_response_pair;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::io::{Read, Write};

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Default)]
pub struct X {
    pub method: String,
    pub url: String,
    pub rqh: Headers,
    pub rqb: Vec<u8>,
    pub status: u16,
    pub rsh: Headers,
    pub rsb: Vec<u8>,
    pub canister: Vec<u8>,
    pub root: Vec<u8>,
    pub now: u128,
    pub offset: u128,
    pub min: u8,
    pub led: Ledger,
    pub opts: Value,
}

pub fn headers_json(h: &Headers) -> Value {
    Value::Array(h.iter().map(|(n, v)| json!([n, v])).collect())
}

impl X {
    pub fn request(&self) -> HttpRequest<'static> {
        HttpRequest::builder()
            .with_method(Method::from_bytes(self.method.as_bytes()).unwrap())
            .with_url(self.url.clone())
            .with_headers(self.rqh.clone())
            .with_body(self.rqb.clone())
            .build()
    }
    pub fn response(&self) -> HttpResponse<'static> {
        HttpResponse::builder()
            .with_status_code(StatusCode::from_u16(self.status).unwrap())
            .with_headers(self.rsh.clone())
            .with_body(self.rsb.clone())
            .build()
    }
    pub fn set(&mut self, name: &str, value: &str) {
        self.rsh.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
        self.rsh.push((name.to_string(), value.to_string()));
    }
}

pub fn observe(x: &X) -> Value {
    let (req, resp) = (x.request(), x.response());
    match guard(|| {
        match verify_request_response_pair(req, resp, &x.canister, x.now, x.offset, &x.root, x.min) {
            Err(_) => json!(["rejected"]),
            Ok(i) => {
                let v = i.verification_version.to_string();
                match i.response {
                    None => json!(["ok", v, []]),
                    Some(s) => json!(["ok", v, [{
                        "status": s.status_code.map(|c| c.to_string()).unwrap_or_default(),
                        "headers": headers_json(&s.headers),
                        "body": hx(&s.body),
                    }]]),
                }
            }
        }
    }) {
        Ok(v) => v,
        Err(_) => json!(["panic"]),
    }
}

fn inflate(mut d: impl Read) -> Value {
    let mut v = vec![];
    match d.read_to_end(&mut v) {
        Ok(_) => json!(["ok", hex::encode(v)]),
        Err(_) => json!(["err"]),
    }
}

pub fn run_json(x: &X, outcome: Value) -> Value {
    json!({
        "kind": "verify",
        "req": {"method": x.method, "url": x.url, "headers": headers_json(&x.rqh), "body": hx(&x.rqb)},
        "resp": {"status": x.status.to_string(), "headers": headers_json(&x.rsh), "body": hx(&x.rsb)},
        "canister": hx(&x.canister), "root": hx(&x.root),
        "now": x.now.to_string(), "offset": x.offset.to_string(), "min": x.min.to_string(),
        "signed": x.led.json(), "gzip": inflate(GzDecoder::new(x.rsb.as_slice())),
        "deflate": inflate(DeflateDecoder::new(x.rsb.as_slice())),
        "options": x.opts, "outcome": outcome,
    })
}

// ---- the hashes a canister computes, independently of the library -------------------------
pub fn rih(m: &[(String, Vec<u8>)]) -> [u8; 32] {
    let mut hs: Vec<Vec<u8>> = m
        .iter()
        .map(|(k, v)| [sha(k.as_bytes()).to_vec(), sha(v).to_vec()].concat())
        .collect();
    hs.sort();
    sha(&hs.concat())
}
pub fn listed(names: &[String], n: &str) -> bool {
    names.iter().any(|x| x.eq_ignore_ascii_case(n))
}

#[derive(Clone, Debug)]
pub enum Rc {
    Certified(Vec<String>),
    Excluded(Vec<String>),
}
#[derive(Clone, Debug)]
pub enum Ce {
    Skip,
    Response(Rc),
    Full(Vec<String>, Vec<String>, Rc),
}

fn quoted(v: &[String]) -> String {
    v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
}

impl Ce {
    pub fn text(&self) -> String {
        let rc = |r: &Rc| match r {
            Rc::Certified(v) => format!(
                "response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:[{}]}}}}",
                quoted(v)
            ),
            Rc::Excluded(v) => format!(
                "response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[{}]}}}}",
                quoted(v)
            ),
        };
        match self {
            Ce::Skip => "default_certification(ValidationArgs{no_certification:Empty{}})".into(),
            Ce::Response(r) => format!(
                "default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},{}}}}})",
                rc(r)
            ),
            Ce::Full(h, p, r) => format!(
                "default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[{}],certified_query_parameters:[{}]}},{}}}}})",
                quoted(h),
                quoted(p),
                rc(r)
            ),
        }
    }
    pub fn rc(&self) -> Rc {
        match self {
            Ce::Skip => Rc::Certified(vec![]),
            Ce::Response(r) | Ce::Full(_, _, r) => r.clone(),
        }
    }
    pub fn request_hash(&self, x: &X) -> Vec<u8> {
        let Ce::Full(names, params, _) = self else { return vec![] };
        let mut m: Vec<(String, Vec<u8>)> = x
            .rqh
            .iter()
            .filter(|(n, _)| listed(names, n))
            .map(|(n, v)| (n.to_ascii_lowercase(), v.clone().into_bytes()))
            .collect();
        m.push((":ic-cert-method".into(), x.method.clone().into_bytes()));
        let u = x.url.split('#').next().unwrap();
        if let Some((_, q)) = u.split_once('?') {
            let q: Vec<&str> = q.split('&').filter(|f| listed(params, f.split('=').next().unwrap())).collect();
            m.push((":ic-cert-query".into(), q.join("&").into_bytes()));
        }
        sha(&[rih(&m), sha(&x.rqb)].concat()).to_vec()
    }
    pub fn response_hash(&self, x: &X) -> Vec<u8> {
        let rc = self.rc();
        let mut m: Vec<(String, Vec<u8>)> = x
            .rsh
            .iter()
            .filter(|(n, _)| {
                let l = n.to_ascii_lowercase();
                l != "ic-certificate"
                    && (l == "ic-certificateexpression"
                        || match &rc {
                            Rc::Certified(v) => listed(v, n),
                            Rc::Excluded(v) => !listed(v, n),
                        })
            })
            .map(|(n, v)| (n.to_ascii_lowercase(), v.clone().into_bytes()))
            .collect();
        m.push((":ic-cert-status".into(), leb(x.status as u64)));
        sha(&[rih(&m), sha(&x.rsb)].concat()).to_vec()
    }
    /// The path of this exchange below its expression path.
    pub fn entry(&self, x: &X) -> Vec<Vec<u8>> {
        let mut p = vec![sha(self.text().as_bytes()).to_vec()];
        if !matches!(self, Ce::Skip) {
            p.push(self.request_hash(x));
            p.push(self.response_hash(x));
        }
        p
    }
}

pub fn segs(path: &str) -> Vec<String> {
    let mut v: Vec<String> = path.split('/').filter(|s| !s.is_empty()).map(String::from).collect();
    if path.ends_with('/') {
        v.push(String::new())
    }
    v
}
pub fn expr_path(path: &str, wild: bool) -> Vec<String> {
    [vec!["http_expr".to_string()], segs(path), vec![(if wild { "<*>" } else { "<$>" }).to_string()]].concat()
}
pub fn b(v: &[String]) -> Vec<Vec<u8>> {
    v.iter().map(|s| s.clone().into_bytes()).collect()
}

/// Percent-encodes what cannot stand in a URL path, and now and then what can.
pub fn encode_path(r: &mut R, p: &str) -> String {
    let mut out = String::new();
    for c in p.bytes() {
        let plain = c.is_ascii_alphanumeric() || b"/-._~$*!".contains(&c);
        if !plain || (c != b'/' && chance(r, 5)) {
            if chance(r, 50) {
                out.push_str(&format!("%{c:02x}"))
            } else {
                out.push_str(&format!("%{c:02X}"))
            }
        } else {
            out.push(c as char)
        }
    }
    out
}

/// The dimensions in which an exchange may deviate; an absent one has its honest value.
pub const OPTIONS: &[(&str, &[&str])] = &[
    ("kind", &["response", "excluded", "full", "full_excluded", "skip", "v1"]),
    ("place", &["exact", "wild", "dir", "root", "rootwild", "odd", "absolute"]),
    ("method", &["changed", "case"]),
    ("rqheader", &["value", "missing", "case", "added", "repeated", "free", "free_added", "order", "moved"]),
    ("rqquery", &["value", "missing", "added", "case", "order", "free", "free_added", "none", "fragment", "bare"]),
    ("rqbody", &["changed", "empty", "extended"]),
    ("rqpath", &["other", "slash", "encoded", "longer", "double", "bad", "nonutf8", "badurl", "similar"]),
    ("status", &["changed", "zero"]),
    ("body", &["changed", "empty", "truncated", "extended"]),
    ("rsheader", &["value", "missing", "case", "added", "repeated", "free", "free_added", "order", "moved", "swap"]),
    ("expr", &["other_kind", "other_list", "spaces", "trailing", "skip", "garbage", "wrongtype", "certifies_both"]),
    ("exprhdr", &["missing", "case", "twice_same", "twice_other_first", "twice_other_last", "empty"]),
    (
        "tree",
        &[
            "leaf", "noentry", "otherpath", "otherexpr", "pruned_expr", "pruned_request", "pruned_response", "full",
            "norequest", "deeper", "noresponse", "random", "pruned_leaf", "empty", "skip_too", "more_specific", "exact_too",
        ],
    ),
    ("epath", &["other", "noprefix", "noend", "exactend", "wildend", "shorter", "longer", "slash", "empty", "root"]),
    ("cdata", &["other", "missing", "pruned", "othercanister", "longer", "subtree"]),
    ("cert", &["forged", "stale", "othercanister", "delegated", "otherroot", "ranges"]),
    (
        "header",
        &[
            "missing", "nocert", "notree", "nopath", "noversion", "order", "blanks", "plain", "extra", "case", "twice",
            "badcert", "badtree", "badpath", "emptycert", "emptypath", "nonsense", "semicolons", "halfquoted", "dup_version_first",
            "dup_version_last", "dup_tree_first", "dup_path_first", "commas", "unpadded", "urlsafe", "upper", "truncated", "innerspace",
            "other_first", "other_last", "trailing", "equals", "newline", "pathtype", "nearname",
        ],
    ),
    ("version", &["0", "1", "3", "02", "+2", "-2", "256", "258", "2.0", "x", "2 ", "2x", "002", "1,", ":2:", ":1:", "", ": 2:", ":2 :", "\t2", "0x2", "2e0", "\u{ff12}", "1 2", "22"]),
    ("min", &["0", "1", "3", "255"]),
    (
        "enc",
        &[
            "gzip", "deflate", "gzip_raw", "deflate_raw", "gzip_bad", "deflate_bad", "br", "upper", "identity", "gzip_twice",
            "gzip_trailing", "gzip_plain", "gzip_truncated", "deflate_gzip", "zlib", "repeated", "empty", "br_raw",
            "odd", "odd_raw",
        ],
    ),
    ("v1path", &["fallback", "absent", "pruned", "pruned_fallback", "other", "subtree", "short", "fallback_other", "rootlabel", "encoded"]),
];

pub fn opt<'a>(o: &'a Value, k: &str) -> &'a str {
    o.get(k).and_then(|v| v.as_str()).unwrap_or("")
}

const HNAMES: &[&str] = &["X-Cert", "x-two", "Content-Type", "ETag", "Cache-Control", "host", "Accept", "X-A", "x!#$%&'*+-.^_`|~9"];

/// Names that something may be special about.
const STANDARD: &[&str] = &[
    "Accept-Encoding", "Accept-Ranges", "Access-Control-Allow-Origin", "Age", "Allow", "Authorization", "Connection",
    "Content-Disposition", "Content-Encoding", "Content-Language", "Content-Length", "Content-Location", "Content-Range",
    "Content-Security-Policy", "Cookie", "Date", "Expires", "Forwarded", "If-None-Match", "If-Range", "Last-Modified", "Link",
    "Location", "Origin", "Pragma", "Range", "Referer", "Server", "Set-Cookie", "Strict-Transport-Security", "TE", "Trailer",
    "Transfer-Encoding", "Upgrade", "User-Agent", "Vary", "Via", "X-Content-Type-Options", "X-Forwarded-For", "X-Frame-Options",
    "x-ic-canister-id", "x-request-id", "status", "IC-Certificate2", "certificate",
];
/// A name that is on the list most messages and expressions share, or any other.
fn hname(r: &mut R) -> &'static str {
    if chance(r, 25) {
        *pick(r, STANDARD)
    } else {
        *pick(r, HNAMES)
    }
}

fn case(r: &mut R, s: &str) -> String {
    s.chars()
        .map(|c| if chance(r, 50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

fn text(r: &mut R) -> String {
    let pool = ["1", "v", "", "a b", "text/html", "\u{e9}t\u{e9}", "0", "x,y", "\"q\"", "gzip"];
    if chance(r, 25) {
        let whole = ["gzip", "br", "identity", "chunked", "close", "no-store", "bytes", "bytes 0-1/2", "*", " v", "v ", "\tv", "V", "200", "GET", "/x", "", "a\r\n b", "a\n", "a  b", "a\tb", "\u{a0}v", "\0", "%61"];
        return pick(r, &whole).to_string();
    }
    if chance(r, 2) {
        let n = length(r, &[40, 64, 300]).min(5000);
        return "v".repeat(n);
    }
    format!("{}{}", pick(r, &pool), r.gen_range(0..3))
}

fn change_headers(r: &mut R, hs: &mut Headers, how: &str, certified: &dyn Fn(&str) -> bool) {
    let special = |n: &str| n.to_ascii_lowercase().starts_with("ic-certificate");
    let idx = |hs: &Headers, c: bool| -> Vec<usize> {
        (0..hs.len()).filter(|i| !special(&hs[*i].0) && certified(&hs[*i].0) == c).collect()
    };
    let (yes, no) = (idx(hs, true), idx(hs, false));
    match how {
        "value" if !yes.is_empty() => {
            let v = &mut hs[*pick(r, &yes)].1;
            match r.gen_range(0..9) {
                0 => v.push(' '),
                1 => v.insert(0, ' '),
                2 => v.push('\t'),
                3 => v.push(','),
                4 => *v = if *v == v.to_ascii_uppercase() { v.to_ascii_lowercase() } else { v.to_ascii_uppercase() },
                5 => *v = String::new(),
                6 => *v = v.repeat(2),
                7 => {
                    v.pop();
                }
                _ => v.push('!'),
            }
        }
        "missing" if !yes.is_empty() => {
            hs.remove(*pick(r, &yes));
        }
        "case" => {
            for h in hs.iter_mut() {
                h.0 = case(r, &h.0)
            }
        }
        "added" => {
            let n: Vec<&&str> = if chance(r, 50) { HNAMES } else { STANDARD }.iter().filter(|n| certified(n)).collect();
            if !n.is_empty() {
                let n = pick(r, &n).to_string();
                hs.insert(r.gen_range(0..=hs.len()), (n, "new".into()))
            }
        }
        "repeated" if !yes.is_empty() => {
            let h = hs[*pick(r, &yes)].clone();
            hs.push(h)
        }
        "free" if !no.is_empty() => hs[*pick(r, &no)].1.push('!'),
        "free_added" => {
            let n: Vec<&&str> = if chance(r, 50) { HNAMES } else { STANDARD }.iter().filter(|n| !certified(n)).collect();
            if !n.is_empty() {
                let n = pick(r, &n).to_string();
                hs.insert(r.gen_range(0..=hs.len()), (n, "new".into()))
            }
        }
        "order" => hs.shuffle(r),
        // the value of a certified header under another name
        "moved" if !yes.is_empty() => {
            let i = *pick(r, &yes);
            hs[i].0 = pick(r, HNAMES).to_string()
        }
        // the values of two certified headers exchanged
        "swap" if yes.len() > 1 => {
            let (i, j) = (yes[0], yes[yes.len() - 1]);
            let v = hs[i].1.clone();
            hs[i].1 = hs[j].1.clone();
            hs[j].1 = v;
        }
        _ => {}
    }
}

fn header_variant(r: &mut R, how: &str, cert: &[u8], tree: &[u8], path: Option<&[u8]>, version: &str) -> String {
    let e = |v: &[u8]| B64.encode(v);
    let mut f: Vec<(String, String)> = vec![
        ("certificate".into(), format!(":{}:", e(cert))),
        ("tree".into(), format!(":{}:", e(tree))),
    ];
    if let Some(p) = path {
        f.push(("expr_path".into(), format!(":{}:", e(p))))
    }
    f.push(("version".into(), version.into()));
    let mut sep = ", ".to_string();
    let spoil = |v: &[u8], r: &mut R| {
        let s = e(v);
        match r.gen_range(0..4) {
            0 => format!(":{}*:", &s[..s.len().saturating_sub(1)]),
            1 => format!(":{}:", e(&v[..v.len() / 2])),
            2 => format!(":{}:", e(&[v, b"x"].concat())),
            _ => format!(":{}:", &s[..s.len().saturating_sub(5)]),
        }
    };
    let drop = |f: &mut Vec<(String, String)>, n: &str| f.retain(|x| x.0 != n);
    let put = |f: &mut Vec<(String, String)>, n: &str, v: String| {
        for x in f.iter_mut() {
            if x.0 == n {
                x.1 = v.clone()
            }
        }
    };
    match how {
        "nocert" => drop(&mut f, "certificate"),
        "notree" => drop(&mut f, "tree"),
        "nopath" => drop(&mut f, "expr_path"),
        "noversion" => drop(&mut f, "version"),
        "order" => f.shuffle(r),
        "blanks" => sep = pick(r, &[" ,  ", ",\t", ",", " , "]).to_string(),
        "plain" => {
            for x in f.iter_mut() {
                x.1 = x.1.trim_matches(':').to_string()
            }
        }
        "extra" => {
            let junk = ["foo=bar", "foo=:AAAA:", "foo", "=", "=x", "certificates=:AA:", "Version=1", "treex=1"];
            let i = r.gen_range(0..=f.len());
            let (k, v) = pick(r, &junk).split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or(("foo".into(), "".into()));
            f.insert(i, (k, v))
        }
        "badcert" => put(&mut f, "certificate", spoil(cert, r)),
        "badtree" => put(&mut f, "tree", spoil(tree, r)),
        "badpath" => put(&mut f, "expr_path", spoil(path.unwrap_or(b"\x80"), r)),
        "pathtype" => {
            let v: [Vec<u8>; 5] = [b"\x81\x01".to_vec(), b"\x81\x41a".to_vec(), b"\x61a".to_vec(), b"\xa0".to_vec(), b"\x82\x61a".to_vec()];
            put(&mut f, "expr_path", format!(":{}:", e(&pick(r, &v)[..])))
        }
        "emptycert" => put(&mut f, "certificate", pick(r, &["::", ":", ""]).to_string()),
        "emptypath" => put(&mut f, "expr_path", pick(r, &["::", ":", "", ":gA==:"]).to_string()),
        "nonsense" => return pick(r, &["", ",", "=", "certificate", ":::", "certificate=tree=version=2"]).to_string(),
        "semicolons" => sep = "; ".into(),
        "halfquoted" => {
            let i = r.gen_range(0..f.len());
            f[i].1 = if chance(r, 50) {
                f[i].1.trim_end_matches(':').to_string()
            } else {
                f[i].1.trim_start_matches(':').to_string()
            }
        }
        "dup_version_first" => f.insert(0, ("version".into(), pick(r, &["1", "2", "3", "", "x"]).to_string())),
        "dup_version_last" => f.push(("version".into(), pick(r, &["1", "2", "3", "", "x"]).to_string())),
        "dup_tree_first" => {
            let v = pick(r, &[":gQA=:", "", ":x:", ":ggNA:"]).to_string();
            let i = if chance(r, 50) { 0 } else { f.len() };
            f.insert(i, ("tree".into(), v))
        }
        "dup_path_first" => {
            let v = format!(":{}:", e(&strings_cbor(&expr_path("/", true))));
            let i = if chance(r, 50) { 0 } else { f.len() };
            f.insert(i, ("expr_path".into(), v))
        }
        "commas" => sep = pick(r, &[",,", ", ,", ",,,"]).to_string(),
        "unpadded" => {
            for x in f.iter_mut() {
                x.1 = x.1.replace('=', "")
            }
        }
        "urlsafe" => {
            for x in f.iter_mut() {
                x.1 = x.1.replace('+', "-").replace('/', "_")
            }
        }
        "upper" => {
            let i = r.gen_range(0..f.len());
            f[i].0 = f[i].0.to_uppercase()
        }
        "innerspace" => {
            let i = r.gen_range(0..f.len());
            match r.gen_range(0..4) {
                0 => f[i].0.push(' '),
                1 => f[i].1.insert(0, ' '),
                2 => {
                    let k = f[i].1.len() / 2;
                    f[i].1.insert(k, ' ')
                }
                _ => f[i].1.push('\t'),
            }
        }
        "trailing" => {
            let t = f.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(&sep);
            return format!("{t}{}", pick(r, &[",", ", ", " ", "x", ":", ",version=1", ",x=:"]));
        }
        "equals" => {
            let i = r.gen_range(0..f.len());
            f[i].1 = format!("={}", f[i].1)
        }
        "newline" => sep = pick(r, &[",\n", ",\r\n", "\u{a0}, ", ",\u{3000}"]).to_string(),
        _ => {}
    }
    let t = f.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(&sep);
    if how == "truncated" {
        let mut k = r.gen_range(0..t.len());
        while !t.is_char_boundary(k) {
            k -= 1
        }
        return t[..k].to_string();
    }
    t
}

pub fn compress(b: &[u8], gz: bool) -> Vec<u8> {
    if gz {
        let mut e = GzEncoder::new(Vec::new(), Compression::default());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    } else {
        let mut e = DeflateEncoder::new(Vec::new(), Compression::default());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    }
}

/// The certificate of the exchange, for the certified data given.
fn certificate(r: &mut R, o: &Value, x: &mut X, data: &[u8]) -> Vec<u8> {
    let data = match opt(o, "cdata") {
        "other" => sha(data).to_vec(),
        "longer" => [data, &[0]].concat(),
        _ => data.to_vec(),
    };
    let canister = x.canister.clone();
    if matches!(opt(o, "cdata"), "missing" | "pruned" | "othercanister" | "subtree") {
        let other = vec![0, 0, 0, 0, 1, 0x20, 0, 0x81, 1, 1];
        let p = |c: &Vec<u8>, l: &[u8]| vec![b"canister".to_vec(), c.clone(), l.to_vec()];
        let mut e = vec![
            (vec![b"time".to_vec()], leb(x.now as u64)),
            (p(&other, b"certified_data"), vec![1; 32]),
            (p(&canister, b"module_hash"), vec![2; 32]),
        ];
        match opt(o, "cdata") {
            "pruned" => e.push((p(&canister, b"certified_data"), data)),
            "othercanister" => {
                e[1].1 = data;
                e.push((p(&canister, b"certified_data"), vec![1; 32]))
            }
            "subtree" => {
                let mut q = p(&canister, b"certified_data");
                q.push(b"x".to_vec());
                e.push((q, data))
            }
            _ => {}
        }
        let mut t = build(r, e);
        if opt(o, "cdata") == "pruned" {
            t = prune_at(&t, &p(&canister, b"certified_data"))
        }
        let s = x.led.sign_tree(&key("root"), &t);
        return cert_cbor(&t, &s, None);
    }
    let time = x.now as u64 - if opt(o, "cert") == "stale" { x.offset as u64 + 1 } else { 0 };
    let c = match opt(o, "cert") {
        "forged" => {
            let e = vec![
                (vec![b"time".to_vec()], leb(time)),
                (vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()], data.clone()),
            ];
            let t = build(r, e);
            let s = x.led.sign_tree(&key("other"), &t);
            cert_cbor(&t, &s, None)
        }
        // a certificate of another canister that committed to the same data
        "othercanister" => simple_cert(r, &mut x.led, &[0, 0, 0, 0, 1, 0x20, 0, 0x81, 1, 1], &data, time, false),
        "delegated" => simple_cert(r, &mut x.led, &canister, &data, time, true),
        _ => simple_cert(r, &mut x.led, &canister, &data, time, false),
    };
    match opt(o, "cert") {
        "otherroot" => x.root = key("other").der(),
        "ranges" => {
            // delegated to a subnet, asked for a canister outside its ranges
            let c = simple_cert(r, &mut x.led, &canister, &data, time, true);
            x.canister = vec![200; 10];
            return c;
        }
        _ => {}
    }
    c
}

pub fn base(r: &mut R) -> X {
    X {
        canister: vec![0, 0, 0, 0, 1, 0x20, 0, 0x80, 1, 1],
        root: key("root").der(),
        now: 1_700_000_000_000_000_000 + r.gen_range(0..1_000_000),
        offset: 300_000_000_000,
        min: 2,
        ..Default::default()
    }
}

pub fn make(r: &mut R, o: &Value) -> X {
    let mut x = if opt(o, "kind") == "v1" { make1(r, o) } else { make2(r, o) };
    if let Some(m) = o.get("min") {
        x.min = m.as_str().unwrap().parse().unwrap()
    }
    x.opts = o.clone();
    x
}

pub fn finish(r: &mut R, o: &Value, x: &mut X, cert: &[u8], tree: &Term, path: Option<&[String]>, version: &str) {
    let p = path.map(strings_cbor);
    let version = o.get("version").and_then(|v| v.as_str()).unwrap_or(version);
    let tree = if chance(r, 50) { [vec![0xd9, 0xd9, 0xf7], tree.cbor()].concat() } else { tree.cbor() };
    let good = header_variant(r, opt(o, "header"), cert, &tree, p.as_deref(), version);
    let junk = "certificate=:AAAA:, tree=:gQA=:, version=1".to_string();
    let at = r.gen_range(0..=x.rsh.len());
    let name = if opt(o, "header") == "case" { case(r, "IC-Certificate") } else { "IC-Certificate".to_string() };
    match opt(o, "header") {
        "missing" => {}
        "nearname" => {
            let n = pick(r, &["IC-Certificate ", " IC-Certificate", "IC_Certificate", "IC-Certificate:", "ICCertificate", "IC-Certificates", "X-IC-Certificate", "IC-Certificate-Expression", "certificate", ""]).to_string();
            x.rsh.insert(at, (n, good))
        }
        "twice" => {
            x.rsh.insert(at, (name.clone(), good.clone()));
            x.rsh.push((case(r, &name), good))
        }
        "other_first" => {
            x.rsh.insert(0, (name.clone(), junk));
            x.rsh.push((name, good))
        }
        "other_last" => {
            x.rsh.insert(0, (name.clone(), good));
            x.rsh.push((case(r, &name), junk))
        }
        _ => x.rsh.insert(at, (name, good)),
    }
}

fn make1(r: &mut R, o: &Value) -> X {
    let mut x = base(r);
    x.min = 1;
    x.method = if chance(r, 60) { "GET" } else { *pick(r, METHODS) }.into();
    x.status = if chance(r, 60) { *pick(r, &[200, 404, 500]) } else { status(r) };
    if chance(r, 30) {
        x.rqh = random_headers(r, 3);
        x.rqb = bytes(r, 2);
    }
    let path = match opt(o, "place") {
        "root" | "rootwild" => "/".to_string(),
        "dir" => "/a/b/".to_string(),
        "odd" => pick(r, &["/a b/\u{e9}%", "/a ", "/ ", "/a/..", "/a/.", "/A.JS", "/a+b", "/a//b", "/a;x", "/a?b", "/a#b", "/<*>"]).to_string(),
        _ if chance(r, 20) => unusual_path(r),
        _ => pick(r, &["/app.js", "/a/b", "/index.html"]).to_string(),
    };
    x.url = match opt(o, "place") {
        "absolute" => format!("https://x.icp0.io{}", encode_path(r, &path)),
        _ => encode_path(r, &path),
    };
    if chance(r, 30) {
        x.url.push_str(*pick(r, &["?q=1", "?", "?/other", "?a/../b?c"]))
    }
    let n = *pick(r, &[0usize, 5, 2000]);
    let n = if n == 5 { length(r, &[1, 5, 31, 32, 33]) } else { n };
    let body = if n == 2000 { vec![7; n] } else { bytes(r, n) };
    x.rsb = body.clone();
    let (gz, de) = (compress(&body, true), compress(&body, false));
    let mut certified = sha(&body);
    let enc = opt(o, "enc");
    let mut header = match enc {
        "" => None,
        "br" | "br_raw" => Some("br"),
        "identity" => Some("identity"),
        "odd" | "odd_raw" => Some(*pick(r, &[" gzip", "gzip ", "gzip, br", "\"gzip\"", "x-gzip", "gzip;q=1", "gzip,", "gz", " deflate", "gzip, gzip", "\tgzip"])),
        "upper" => Some("GZIP"),
        "empty" => Some(""),
        e if e.starts_with("deflate") || e == "zlib" => Some("deflate"),
        _ => Some("gzip"),
    };
    match enc {
        "gzip" | "upper" | "repeated" => x.rsb = gz.clone(),
        "deflate" => x.rsb = de,
        "gzip_raw" => {
            certified = sha(&gz);
            x.rsb = gz
        }
        "deflate_raw" => {
            certified = sha(&de);
            x.rsb = de
        }
        "gzip_bad" | "deflate_bad" => {
            x.rsb = bytes(r, 30);
            if chance(r, 50) {
                certified = sha(&x.rsb)
            }
        }
        "gzip_twice" => x.rsb = [gz.clone(), gz.clone()].concat(),
        "gzip_trailing" => x.rsb = [gz, vec![0, 1]].concat(),
        "gzip_plain" => {}
        "gzip_truncated" => x.rsb = gz[..gz.len() - r.gen_range(1..gz.len())].to_vec(),
        "deflate_gzip" => x.rsb = gz,
        "zlib" => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), Compression::default());
            e.write_all(&body).unwrap();
            x.rsb = e.finish().unwrap()
        }
        "br" | "odd" => x.rsb = gz,
        "odd_raw" => {
            certified = sha(&gz);
            x.rsb = gz
        }
        "br_raw" => {
            certified = sha(&gz);
            x.rsb = gz
        }
        _ => {}
    }
    x.rsh = vec![("Content-Type".into(), "text/html".into()), ("X-A".into(), text(r))];
    if chance(r, 20) {
        x.rsh.extend(random_headers(r, 3).into_iter().filter(|h| !h.0.eq_ignore_ascii_case("content-encoding")))
    }
    if enc == "repeated" {
        x.rsh.push(("Content-Encoding".into(), "br".into()));
        if chance(r, 50) {
            x.rsh.swap(1, 2);
            header = Some("identity")
        }
    }
    if let Some(h) = header {
        let n = if chance(r, 30) { case(r, "Content-Encoding") } else { "Content-Encoding".into() };
        x.rsh.push((n, h.into()))
    }
    let assets = |p: &str| vec![b"http_assets".to_vec(), p.as_bytes().to_vec()];
    let mut e = vec![(assets("/other"), vec![9; 32])];
    let index = "/index.html";
    if !["/other", index].contains(&path.as_str()) && !matches!(opt(o, "v1path"), "fallback" | "absent" | "pruned_fallback") {
        e.push((assets(index), sha(b"index").to_vec()));
    }
    match opt(o, "v1path") {
        "fallback" | "pruned_fallback" => e.push((assets(index), certified.to_vec())),
        "absent" => {}
        "other" => {
            e[0].1 = certified.to_vec();
            e.push((assets(&path), sha(b"else").to_vec()))
        }
        "subtree" => e.push(([assets(&path), vec![b"x".to_vec()]].concat(), certified.to_vec())),
        "short" => {
            let content = match r.gen_range(0..4) {
                0 => vec![],
                1 => [&certified[..], &[0]].concat(),
                2 => [certified, certified].concat(),
                _ => certified[..31].to_vec(),
            };
            if chance(r, 50) {
                // what would be used if there were no entry
                e.retain(|x| x.0 != assets(index));
                e.push((assets(index), certified.to_vec()))
            }
            e.retain(|x| x.0 != assets(&path));
            e.push((assets(&path), content))
        }
        "fallback_other" => {
            e.retain(|x| x.0 != assets(index));
            e.push((assets(&path), sha(b"else").to_vec()));
            if path != index {
                e.push((assets(index), certified.to_vec()))
            }
        }
        "rootlabel" => e.push((vec![path.as_bytes().to_vec()], certified.to_vec())),
        "encoded" => e.push((assets(&x.url), certified.to_vec())),
        _ => e.push((assets(&path), certified.to_vec())),
    }
    e.sort();
    e.dedup_by(|a, b| a.0 == b.0);
    let mut tree = build(r, e);
    match opt(o, "v1path") {
        "pruned" => tree = prune_at(&tree, &assets(&path)),
        "pruned_fallback" => tree = prune_at(&tree, &assets(index)),
        _ => {}
    }
    if opt(o, "tree") == "random" {
        tree = tree.prune(r, 10)
    } else if opt(o, "tree") != "full" {
        tree = match opt(o, "v1path") {
            "pruned" | "pruned_fallback" => tree,
            _ => tree.witness(&[assets(&path), assets(index)]),
        }
    }
    match opt(o, "body") {
        "changed" => x.rsb.push(1),
        "empty" => x.rsb = vec![],
        "truncated" => {
            x.rsb.pop();
        }
        _ => {}
    }
    match opt(o, "rqpath") {
        "other" => x.url = "/other".into(),
        "slash" => x.url = format!("/{}", x.url),
        "longer" => x.url.push('x'),
        "bad" => x.url = format!("{path}%ff"),
        "badurl" => x.url = "/a b".into(),
        "similar" => x.url = similar_path(r, &path),
        _ => {}
    }
    let d = tree.digest();
    let cert = certificate(r, o, &mut x, &d);
    let p = expr_path(&path, false);
    let p = if chance(r, 30) { Some(p.as_slice()) } else { None };
    finish(r, o, &mut x, &cert, &tree, p, "1");
    x
}

pub fn lists(r: &mut R, n: usize) -> Vec<String> {
    let k = r.gen_range(0..=n);
    let mut v: Vec<String> = HNAMES.choose_multiple(r, k).map(|s| s.to_string()).collect();
    if chance(r, 20) {
        v.extend(STANDARD.choose_multiple(r, k).map(|s| s.to_string()))
    }
    if chance(r, 4) {
        v.push(pick(r, &["IC-Certificate", "ic-certificateexpression"]).to_string())
    }
    for s in v.iter_mut() {
        if chance(r, 30) {
            *s = case(r, s)
        }
    }
    v
}

/// A name that some would take for the given one, or for one that matters.
pub fn nearly(r: &mut R, name: &str) -> String {
    match r.gen_range(0..8) {
        0 => format!("{name} "),
        1 => format!(" {name}"),
        2 => name.replace('-', "_"),
        3 => pick(r, &["IC-Certificate ", " ic-certificate", "IC-CertificateExpression ", "ic_certificate", "IC-CertificateExpressions"]).to_string(),
        4 => pick(r, &[":ic-cert-status", ":ic-cert-method", ":ic-cert-query"]).to_string(),
        5 => format!("{name}:"),
        6 => format!("{name}{}", "n".repeat(70)),
        _ => String::new(),
    }
}

pub fn random_headers(r: &mut R, n: usize) -> Headers {
    let k = size(r, n);
    (0..k).map(|_| {
        let n = hname(r);
        let n = if chance(r, 30) { case(r, n) } else { n.to_string() };
        (if chance(r, 2) { nearly(r, &n) } else { n }, text(r))
    }).collect()
}

pub const METHODS: &[&str] = &[
    "GET", "GET", "POST", "POST", "HEAD", "HEAD", "PURGE", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "Get", "get", "M-SEARCH",
    "QUERY", "X", "PROPFIND", "~",
];
const STATUSES: &[u16] = &[
    200, 200, 404, 206, 301, 599, 128, 100, 101, 201, 204, 205, 302, 304, 307, 308, 400, 401, 403, 405, 410, 412, 416, 500, 502, 503,
    299, 511, 600, 700, 999,
];
/// A status: one that something may be special about, or any.
pub fn status(r: &mut R) -> u16 {
    if chance(r, 70) {
        *pick(r, STATUSES)
    } else {
        r.gen_range(100..=999)
    }
}
/// A path with a segment, or a number of segments, of an unusual kind.
pub fn unusual_path(r: &mut R) -> String {
    let chars = ['a', 'b', 'z', '0', '9', '-', '_', '.', '~', '!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@', ' ', '"', '<', '>', '\\', '^', '`', '{', '|', '}', '%', '#', '?', '\u{e9}', '\u{1f600}', '\u{7f}', '\u{0}', '\u{a0}', '[', ']'];
    let n = size(r, 4).max(1);
    let mut p = String::new();
    for i in 0..n {
        p.push('/');
        let k = if i == 0 && chance(r, 35) { *pick(r, &[20, 63, 64, 128, 255, 256, 300, 1100]) } else { r.gen_range(1..4) };
        p.extend((0..k).map(|_| *pick(r, &chars)));
    }
    if chance(r, 15) {
        p.push('/')
    }
    p
}
const PARAMS: &[&str] = &["q", "q", "r", "s", "s", "id", "Q", "a%20b", "", "utm_source", "_", "canisterId", "p[]"];

fn make2(r: &mut R, o: &Value) -> X {
    let mut x = base(r);
    let place = opt(o, "place");
    // where the entry is, and what is asked for
    let long: String;
    let (epath, wild, path): (&str, bool, &str) = match place {
        "wild" => *pick(r, &[("/a", true, "/a/b"), ("/a/", true, "/a/b/c"), ("/a/b", true, "/a/b"), ("/a", true, "/a/"), ("/a/b/c/d/e/f/g", true, "/a/b/c/d/e/f/g/h/i/j/k/l/m/n"), ("/a/b", true, "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r")]),
        "dir" => *pick(r, &[("/a/", false, "/a/"), ("/a/b/", false, "/a/b/"), ("/", false, "/"), ("/a/b/c/d/e/f/g/h/i/j/k/l/m/n/", false, "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/")]),
        "root" => ("/", false, "/"),
        "rootwild" => *pick(r, &[("", true, "/a/b"), ("/", true, "/a"), ("", true, "/")]),
        "odd" => *pick(r, &[
            ("/\u{e9}/a b", false, "/\u{e9}/a b"),
            ("/<$>", false, "/<$>"),
            ("/http_expr", true, "/http_expr/x"),
            ("/a%20b", false, "/a%20b"),
            ("/*", true, "/*/<*>"),
        ]),
        _ if chance(r, 12) => {
            long = unusual_path(r);
            (long.as_str(), false, long.as_str())
        }
        _ if chance(r, 25) => *pick(r, &[
            ("/index.html", false, "/index.html"),
            ("/api/v2/status", false, "/api/v2/status"),
            ("/favicon.ico", false, "/favicon.ico"),
            ("/.well-known/ic-domains", false, "/.well-known/ic-domains"),
            ("/_/raw/x", false, "/_/raw/x"),
            ("/..", false, "/.."),
            ("/a/../b", false, "/a/../b"),
            ("/a/./b", false, "/a/./b"),
            ("/A", false, "/A"),
            ("/a;b=c", false, "/a;b=c"),
            ("/a+b", false, "/a+b"),
            ("/a/b/c/d/e/f", false, "/a/b/c/d/e/f"),
            ("/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r", false, "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r"),
            ("/a/a/a/a/a/a/a/a/a/b", false, "/a/a/a/a/a/a/a/a/a/b"),
        ]),
        _ => *pick(r, &[("/a", false, "/a"), ("/a/b", false, "/a/b"), ("/x.js", false, "/x.js")]),
    };
    x.method = pick(r, METHODS).to_string();
    x.rqh = random_headers(r, 5);
    if chance(r, 30) {
        x.rqb = bytes(r, 4)
    }
    let mut query: Option<Vec<String>> = if chance(r, 80) {
        let n = size(r, 4);
        Some(
            (0..n)
                .map(|_| {
                    let p = *pick(r, PARAMS);
                    if chance(r, 85) {
                        format!("{p}={}", pick(r, &["1", "2", "a=b", "", "%26", "x+y", "/?", "x%20y", "%41", "\u{e9}", "A", "1;r=2", "=", "01"]))
                    } else {
                        p.to_string()
                    }
                })
                .collect(),
        )
    } else {
        None
    };
    let enc_path = encode_path(r, path);
    let host = if place == "absolute" { *pick(r, &["https://x.icp0.io", "http://u:p@[::1]:80", "https://x.icp0.io:443"]) } else { "" };
    let url = |p: &str, q: &Option<Vec<String>>| match q {
        Some(q) => format!("{host}{p}?{}", q.join("&")),
        None => format!("{host}{p}"),
    };
    x.url = url(&enc_path, &query);
    x.status = status(r);
    let n = length(r, &[0usize, 0, 1, 1, 3, 3, 40, 40, 63, 200]);
    x.rsb = bytes(r, n);
    x.rsh = random_headers(r, 5);
    let qp = |r: &mut R| -> Vec<String> {
        let k = r.gen_range(0..4);
        ["q", "R", "s", "id"].choose_multiple(r, k).map(|s| s.to_string()).collect()
    };
    let rc = lists(r, 4);
    let ce = match opt(o, "kind") {
        "excluded" => Ce::Response(Rc::Excluded(rc)),
        "full" => Ce::Full(lists(r, 4), qp(r), Rc::Certified(rc)),
        "full_excluded" => Ce::Full(lists(r, 4), qp(r), Rc::Excluded(rc)),
        "skip" => Ce::Skip,
        _ => Ce::Response(Rc::Certified(rc)),
    };
    // what is said about the expression
    let expr_name = if opt(o, "exprhdr") == "case" { case(r, "IC-CertificateExpression") } else { "IC-CertificateExpression".into() };
    x.rsh.insert(r.gen_range(0..=x.rsh.len()), (expr_name, ce.text()));
    let ep = expr_path(epath, wild);

    // the canister's tree
    let mut entry = ce.entry(&x);
    let mut e: Vec<(Vec<Vec<u8>>, Vec<u8>)> = vec![];
    let mut at = b(&ep);
    let mut leaf = vec![];
    match opt(o, "tree") {
        "leaf" => leaf = vec![1],
        "norequest" if entry.len() == 3 => {
            entry[1] = if entry[1].is_empty() { sha(b"request").to_vec() } else { vec![] }
        }
        "noresponse" if entry.len() == 3 => {
            entry.pop();
        }
        "deeper" => entry.push(b"x".to_vec()),
        "otherpath" => {
            let n = at.len();
            match r.gen_range(0..4) {
                // on the way to the claimed place, or next to it
                0 if n > 2 => {
                    let k = r.gen_range(1..n - 1);
                    at.truncate(k)
                }
                1 if n > 2 => {
                    let k = r.gen_range(1..n - 1);
                    at.remove(k);
                }
                2 => {
                    let k = r.gen_range(1..n);
                    at.insert(k, at[k - 1].clone())
                }
                _ => at.insert(n - 1, b"elsewhere".to_vec()),
            }
            // the claimed place exists, with something else
            e.push(([b(&ep), Ce::Response(Rc::Certified(vec!["other".into()])).entry(&x)].concat(), vec![]))
        }
        "otherexpr" => entry[0] = sha(b"other expression").to_vec(),
        "skip_too" => e.push(([b(&ep), Ce::Skip.entry(&x)].concat(), vec![])),
        "more_specific" => {
            let mut p = b(&expr_path(path, true));
            if p == at {
                p = b(&expr_path(&format!("{path}/zz"), true))
            }
            e.push(([p, vec![vec![1; 32], vec![], vec![2; 32]]].concat(), vec![]))
        }
        "exact_too" => e.push(([b(&expr_path(path, false)), vec![vec![1; 32], vec![], vec![2; 32]]].concat(), vec![])),
        _ => {}
    }
    if opt(o, "tree") != "noentry" {
        e.push(([at.clone(), entry.clone()].concat(), leaf));
    }
    // the neighbourhood
    if chance(r, 60) {
        let near = Ce::Response(Rc::Excluded(vec![]));
        let other = [("/zzz", false), ("/a/0", false), ("/other", true), ("/aa", false)];
        for (p, w) in other.iter().filter(|_| true).take(r.gen_range(1..4)) {
            e.push(([b(&expr_path(p, *w)), near.entry(&x)].concat(), vec![]))
        }
        let mut y = x.clone();
        y.rsb.push(9);
        if opt(o, "tree") != "noentry" && opt(o, "tree") != "noresponse" && !matches!(ce, Ce::Skip) {
            e.push(([b(&ep), ce.entry(&y)].concat(), vec![]));
        }
    }
    if opt(o, "tree") == "empty" {
        e.clear()
    }
    e.sort();
    e.dedup_by(|a, b| a.0 == b.0);
    let full = if e.is_empty() { Term::E } else { build(r, e) };
    let keep = {
        let mut k = vec![[at.clone(), entry.clone()].concat(), b(&expr_path(path, false))];
        let p = segs(path);
        for i in 0..=p.len() {
            for d in [vec![], vec![String::new()]] {
                k.push(b(&[vec!["http_expr".to_string()], p[..i].to_vec(), d, vec!["<*>".to_string()]].concat()))
            }
        }
        k
    };
    let upto = |n: usize| [b(&ep), entry[..n.min(entry.len())].to_vec()].concat();
    let tree = match opt(o, "tree") {
        "full" => full,
        "random" => full.prune(r, 8),
        "pruned_expr" => prune_at(&full, &b(&ep)),
        "pruned_request" => prune_at(&full, &upto(1)),
        "pruned_response" => prune_at(&full, &upto(2)),
        "pruned_leaf" => prune_at(&full, &upto(3)),
        _ => {
            if chance(r, 70) {
                // the witness keeps no more than what is needed
                let w = full.witness(&keep);
                if opt(o, "epath") == "" && opt(o, "rqpath") == "" { w } else { full }
            } else {
                full
            }
        }
    };
    let d = tree.digest();
    let cert = certificate(r, o, &mut x, &d);

    // changes after certification
    match opt(o, "method") {
        "changed" => {
            let old = x.method.clone();
            while x.method == old {
                x.method = pick(r, METHODS).to_string()
            }
        }
        "case" => x.method = case(r, &x.method),
        _ => {}
    }
    let (rqc, params) = match &ce {
        Ce::Full(h, p, _) => (h.clone(), p.clone()),
        _ => (vec![], vec![]),
    };
    change_headers(r, &mut x.rqh, opt(o, "rqheader"), &|n| listed(&rqc, n));
    let rc = ce.rc();
    change_headers(r, &mut x.rsh, opt(o, "rsheader"), &|n| match &rc {
        Rc::Certified(v) => listed(v, n),
        Rc::Excluded(v) => !listed(v, n),
    });
    let q = query.clone().unwrap_or_default();
    let yes: Vec<usize> = (0..q.len()).filter(|i| listed(&params, q[*i].split('=').next().unwrap())).collect();
    let no: Vec<usize> = (0..q.len()).filter(|i| !yes.contains(i)).collect();
    let mut tail = "";
    if let Some(q) = query.as_mut() {
        match opt(o, "rqquery") {
            "value" if !yes.is_empty() => {
                let i = *pick(r, &yes);
                q[i].push('9')
            }
            "missing" if !yes.is_empty() => {
                q.remove(*pick(r, &yes));
            }
            "added" if !params.is_empty() => q.insert(r.gen_range(0..=q.len()), format!("{}=new", pick(r, &params))),
            "case" => {
                let i = r.gen_range(0..q.len().max(1));
                if let Some(f) = q.get_mut(i) {
                    *f = case(r, f)
                }
            }
            "order" => q.shuffle(r),
            "free" if !no.is_empty() => {
                let i = *pick(r, &no);
                q[i].push_str("=9")
            }
            "free_added" => q.insert(r.gen_range(0..=q.len()), "free=1".into()),
            "none" => {}
            "fragment" => tail = "#q=5&s=6",
            "bare" => {
                if let Some(f) = q.first_mut() {
                    *f = f.split('=').next().unwrap().to_string()
                }
            }
            _ => {}
        }
    }
    if opt(o, "rqquery") == "none" {
        query = match query {
            Some(_) => None,
            None => Some(vec![]),
        }
    }
    let asked = match opt(o, "rqpath") {
        "other" => "/other/thing".to_string(),
        "slash" => {
            if enc_path.ends_with('/') {
                enc_path.trim_end_matches('/').to_string()
            } else {
                format!("{enc_path}/")
            }
        }
        "encoded" => path.bytes().map(|c| if c == b'/' { "/".to_string() } else { format!("%{c:02x}") }).collect(),
        "longer" => format!("{enc_path}x"),
        "double" => enc_path.replace('/', "//"),
        "bad" => format!("{enc_path}%zz%2"),
        "nonutf8" => format!("{enc_path}%ff"),
        "similar" => similar_path(r, path),
        "badurl" => format!("{enc_path} \u{e9}"),
        _ => enc_path.clone(),
    };
    let old_method = x.method.clone();
    x.url = format!("{}{tail}", url(&asked, &query));
    x.method = old_method;
    match opt(o, "rqbody") {
        "changed" => x.rqb = vec![1, 2, 3, 4, 5],
        "empty" => x.rqb = vec![],
        "extended" => x.rqb.push(0),
        _ => {}
    }
    match opt(o, "status") {
        "changed" => {
            let near = [if x.status == 200 { 201 } else { 200 }, x.status + 1, x.status.saturating_sub(100), 304, 206];
            let other: Vec<&u16> = near.iter().filter(|s| **s != x.status && (100..1000).contains(*s)).collect();
            x.status = **pick(r, &other)
        }
        "zero" => x.status = if x.status >= 356 { x.status - 256 } else { x.status + 256 },
        _ => {}
    }
    match opt(o, "body") {
        "changed" if x.rsb.is_empty() => x.rsb.push(0),
        "changed" => {
            let i = r.gen_range(0..x.rsb.len());
            x.rsb[i] ^= *pick(r, &[1, 0x20, 0x80])
        }
        "empty" => x.rsb = vec![],
        "truncated" => {
            x.rsb.pop();
        }
        "extended" => x.rsb.push(0),
        _ => {}
    }
    let text = ce.text();
    let shown = match opt(o, "expr") {
        "other_kind" => match &ce {
            Ce::Response(rc) => Ce::Full(vec![], vec![], rc.clone()).text(),
            _ => Ce::Response(ce.rc()).text(),
        },
        "other_list" => text.replacen("headers:[", "headers:[\"zz\"", 1),
        "spaces" => text.replace('{', " { ").replace(',', ",\n"),
        "trailing" => format!("{text}{}", pick(r, &["x", ")", " ", "{}", "\u{e9}", ";", ",", "\0", "//", "\"", "()"])),
        "skip" => Ce::Skip.text(),
        "garbage" => pick(r, &["", "x", "default_certification()", "(((((((((((((((((((((((((((((((((((("]).to_string(),
        "wrongtype" => text.replace("headers:[", "headers:[x{},"),
        "certifies_both" => text.replace("certification:Certification{", "no_certification:Empty{},certification:Certification{"),
        _ => text.clone(),
    };
    if shown != text {
        for h in x.rsh.iter_mut() {
            if h.0.eq_ignore_ascii_case("ic-certificateexpression") {
                h.1 = shown.clone()
            }
        }
    }
    let name = "IC-CertificateExpression".to_string();
    match opt(o, "exprhdr") {
        "missing" => x.rsh.retain(|h| !h.0.eq_ignore_ascii_case(&name)),
        "empty" => x.set(&name, ""),
        "twice_same" => x.rsh.push((case(r, &name), shown)),
        "twice_other_first" => x.rsh.insert(0, (name, Ce::Skip.text())),
        "twice_other_last" => x.rsh.push((name, Ce::Skip.text())),
        _ => {}
    }
    let mut ep = ep;
    let n = ep.len();
    match opt(o, "epath") {
        "other" => ep[n - 1] = "<?>".into(),
        "noprefix" => {
            ep.remove(0);
        }
        "noend" => {
            ep.pop();
        }
        "exactend" => ep[n - 1] = "<$>".into(),
        "wildend" => ep[n - 1] = "<*>".into(),
        "shorter" => {
            if n > 2 {
                ep.remove(n - 2);
            }
        }
        "longer" => ep.insert(n - 1, "more".into()),
        "slash" => ep.insert(n - 1, "".into()),
        "empty" => ep.clear(),
        "root" => ep = expr_path("", true),
        _ => {}
    }
    finish(r, o, &mut x, &cert, &tree, Some(&ep), "2");
    x
}

pub fn random_options(r: &mut R) -> Value {
    let mut o = json!({"kind": *pick(r, OPTIONS[0].1), "place": *pick(r, OPTIONS[1].1)});
    for _ in 0..*pick(r, &[0, 1, 1, 2, 2, 3, 4]) {
        let (k, vs) = pick(r, &OPTIONS[2..]);
        o[*k] = json!(*pick(r, vs));
    }
    o
}

pub fn run(n: usize, scen: &[Value], label: &str, reps: usize) -> Vec<Value> {
    let mut out: Vec<Value> = (0..scen.len() * reps)
        .into_par_iter()
        .map(|i| {
            let mut r = rng(&format!("verify-scen-{label}"), i as u64);
            let x = make(&mut r, &scen[i / reps]);
            run_json(&x, observe(&x))
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng(&format!("verify-{label}"), i as u64);
        let mut o = random_options(&mut r);
        // the kind that the property is about, mostly
        if chance(&mut r, 50) {
            match label {
                "v1" => o["kind"] = json!("v1"),
                "skip" => o["kind"] = json!("skip"),
                "reported" | "content" if o["kind"] == "v1" => o["kind"] = json!("full_excluded"),
                _ => {}
            }
        }
        let x = make(&mut r, &o);
        run_json(&x, observe(&x))
    }));
    out
}

// ---- C06: expression paths ----------------------------------------------------------------
fn path_text(p: &[String]) -> String {
    // a request path from its segments; the last one is empty for a directory
    if p.is_empty() {
        return String::new();
    }
    format!("/{}", p.join("/"))
}

fn path_case(r: &mut R, view: &Term, asked: &[String], claimed: &[String], opts: Value) -> X {
    let mut x = base(r);
    x.method = "GET".into();
    x.status = 200;
    x.url = encode_path(r, &path_text(asked));
    if x.url.is_empty() {
        x.url = "https://x.icp0.io".into()
    }
    if chance(r, 10) {
        x.url = format!("https://x.icp0.io{}", encode_path(r, &path_text(asked)))
    }
    if chance(r, 10) {
        x.url.push_str("?a=/b/c")
    }
    x.rsb = b"body".to_vec();
    x.set("IC-CertificateExpression", &Ce::Skip.text());
    let d = view.digest();
    let cert = simple_cert(r, &mut x.led, &x.canister.clone(), &d, x.now as u64, false);
    finish(r, &json!({}), &mut x, &cert, view, Some(claimed), "2");
    x.opts = opts;
    x
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| String::from_utf8(hex::decode(s.as_str().unwrap()).unwrap()).unwrap()).collect())
        .unwrap_or_default()
}

fn random_segs(r: &mut R, n: usize, odd: bool) -> Vec<String> {
    let names: &[&str] = if odd {
        &["a", "b", "c", "aa", "\u{e9}", "<*>", "<$>", "http_expr", "*", " ", ".", "..", "A", "a.", "a ", "\\", "a;b", "%", "\0", "index.html"]
    } else {
        &["a", "b", "c", "aa"]
    };
    let mut v: Vec<String> = (0..size(r, n)).map(|_| pick(r, names).to_string()).collect();
    if v.is_empty() || chance(r, 30) {
        v.push(String::new())
    }
    v
}

/// Nearly the same segments: one more that some would leave out, or one that some would take for another.
fn similar_segs(r: &mut R, p: &[String]) -> Vec<String> {
    let mut p = p.to_vec();
    let i = r.gen_range(0..=p.len());
    if chance(r, 40) || i == p.len() || p[i].is_empty() {
        let s = pick(r, &[".", "..", " ", "\\", "*", "<*>", "<$>", "http_expr", "%", "?", "#", "\0", "\u{feff}", "index.html", ";", "%2f"]).to_string();
        if i == p.len() && p.last().is_some_and(|l| l.is_empty()) {
            p.pop();
        }
        p.insert(i.min(p.len()), s)
    } else {
        let s = p[i].clone();
        p[i] = match r.gen_range(0..10) {
            0 => s.to_uppercase(),
            1 => format!("{s} "),
            2 => format!(" {s}"),
            3 => format!("{s}."),
            4 => format!("{s};x"),
            5 => format!("{s}\\x"),
            6 => format!("{s}\0"),
            7 => format!("{s}.html"),
            8 => format!("{s}+{s}"),
            _ => format!("%{:02x}", s.as_bytes()[0]),
        }
    }
    p
}

fn similar_path(r: &mut R, path: &str) -> String {
    let p: Vec<String> = path.trim_start_matches('/').split('/').map(|s| s.to_string()).collect();
    let p = similar_segs(r, &p);
    encode_path(r, &path_text(&p))
}

fn random_path_case(r: &mut R) -> X {
    let odd = chance(r, 25);
    let mut asked = random_segs(r, 4, odd);
    let plain = asked.clone();
    if chance(r, 25) {
        asked = similar_segs(r, &asked)
    }
    let inner = |p: &[String], end: &str| [vec!["http_expr".to_string()], p.to_vec(), vec![end.to_string()]].concat();
    let near = |r: &mut R, asked: &[String]| -> Vec<String> {
        let mut p = asked.to_vec();
        p.truncate(r.gen_range(0..=p.len()));
        match r.gen_range(0..6) {
            5 => p = similar_segs(r, asked),
            0 => p.push(String::new()),
            1 => p.extend(random_segs(r, 1, odd)),
            2 => p = random_segs(r, 3, odd),
            _ => {}
        }
        if p.len() >= 2 && p[p.len() - 1].is_empty() && p[p.len() - 2].is_empty() {
            p.pop();
        }
        p
    };
    let n = r.gen_range(1..6);
    let mut entries: Vec<Vec<String>> = (0..n)
        .map(|_| {
            // now and then what a path like it has
            let other = plain != asked && chance(r, 50);
            let p = if other { plain.clone() } else { near(r, &asked) };
            let w = chance(r, if other { 30 } else { 70 });
            inner(&p, if w { "<*>" } else { "<$>" })
        })
        .collect();
    entries.sort();
    entries.dedup();
    let hash = sha(Ce::Skip.text().as_bytes()).to_vec();
    let full = build(r, entries.iter().map(|e| ([b(e), vec![hash.clone()]].concat(), vec![])).collect());
    let claimed = if chance(r, 85) {
        pick(r, &entries).clone()
    } else {
        let p = near(r, &asked);
        inner(&p, if chance(r, 50) { "<*>" } else { "<$>" })
    };
    let mut keep = vec![b(&inner(&asked, "<$>")), [b(&claimed), vec![hash.clone()]].concat()];
    for i in 0..=asked.len() {
        keep.push(b(&inner(&asked[..i], "<*>")));
        keep.push(b(&[inner(&asked[..i], ""), vec!["<*>".into()]].concat()));
    }
    let view = match r.gen_range(0..6) {
        0 | 1 => full,
        2 | 3 => full.witness(&keep),
        4 => {
            let k = r.gen_range(0..keep.len());
            keep.remove(k);
            full.witness(&keep)
        }
        _ => full.prune(r, 8),
    };
    path_case(r, &view, &asked, &claimed, json!({"entries": entries}))
}

pub fn run_paths(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut r = rng("paths-scen", i as u64);
            let v = Term::from_json(&s["view"]);
            let x = path_case(&mut r, &v, &strings(&s["asked"]), &strings(&s["claimed"]), json!({}));
            run_json(&x, observe(&x))
        })
        .collect();
    out.par_extend((0..n).into_par_iter().map(|i| {
        let mut r = rng("paths", i as u64);
        let x = random_path_case(&mut r);
        run_json(&x, observe(&x))
    }));
    out
}
