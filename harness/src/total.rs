//! C11: hostile inputs, each handled in a process with little stack and memory and limited time.
use crate::certs;
use crate::term::*;
use crate::util::*;
use crate::verify::*;
use crate::world::*;
use base64::{engine::general_purpose::STANDARD as B64, Engine};
use ic_cbor::{parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CertificateToCbor, HashTreeToCbor};
use ic_certification::{Certificate, HashTree};
use ic_http_certification::HttpRequest;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

/// What a case may use: a thread's default stack, 1.5 GB of address space, a minute.
const STACK: usize = 2 << 20;
const MEMORY_KB: usize = 1_500_000;
const SECONDS: u64 = 60;

fn be(v: u8, n: u64) -> Vec<u8> {
    [vec![v], n.to_be_bytes().to_vec()].concat()
}
fn rep(s: &[u8], n: usize) -> Vec<u8> {
    s.repeat(n)
}
fn balanced(lo: usize, hi: usize, leaf: &dyn Fn(usize) -> Term) -> Term {
    if hi - lo == 1 {
        leaf(lo)
    } else {
        let m = (lo + hi) / 2;
        f(balanced(lo, m, leaf), balanced(m, hi, leaf))
    }
}
fn head4(major: u8, n: usize) -> Vec<u8> {
    [vec![(major << 5) | 26], (n as u32).to_be_bytes().to_vec()].concat()
}

fn cbor(make: &str, n: usize, r: &mut R) -> Vec<u8> {
    match make {
        "arrays" => [rep(&[0x81], n), vec![0x80]].concat(),
        "maps" => [rep(&[0xa1, 0x61, 0x61], n), vec![0]].concat(),
        "tags" => [rep(&[0xc1], n), vec![0]].concat(),
        "longtags" => [rep(&[0xd9, 0xd9, 0xf7], n), vec![0x81, 0]].concat(),
        "leftforks" => [rep(&[0x83, 1], n), vec![0x81, 0], rep(&[0x81, 0], n)].concat(),
        "rightforks" => [rep(&[0x83, 1, 0x81, 0], n), vec![0x81, 0]].concat(),
        "labels" => [rep(&[0x83, 2, 0x41, 0x61], n), vec![0x81, 0]].concat(),
        "widetree" => balanced(0, n, &|i| lab(format!("{i:08}"), val([1]))).cbor(),
        "openarrays" => rep(&[0x9f], n),
        "openmaps" => rep(&[0xbf, 0x61, 0x61], n),
        "openstrings" => rep(&[0x5f], n),
        "claimbytes" => [be(0x5b, n as u64), vec![1; 9]].concat(),
        "claimtext" => [be(0x7b, n as u64), vec![b'a'; 9]].concat(),
        "claimarray" => [be(0x9b, n as u64), vec![0; 9]].concat(),
        "claimmap" => [be(0xbb, n as u64), rep(&[0x61, 0x61, 0], 3)].concat(),
        "claimarrays" => rep(&be(0x9b, u64::MAX >> 1), n),
        "widearray" => [head4(4, n), vec![0; n]].concat(),
        "widemap" => [head4(5, n), (0..n).flat_map(|i| [vec![0x68], format!("{i:08}").into_bytes(), vec![0]].concat()).collect()].concat(),
        "samekeys" => [head4(5, n), rep(&[0x61, 0x61, 0x80], n)].concat(),
        "bytes" => [head4(2, n), vec![7; n]].concat(),
        "ranges" => [head4(4, n), rep(&[0x82, 0x41, 1, 0x41, 2], n)].concat(),
        "texts" => [head4(4, n), rep(&[0x63, b'<', b'*', b'>'], n)].concat(),
        "negatives" => [head4(4, n), rep(&be(0x3b, u64::MAX), n)].concat(),
        "junk" => bytes(r, n),
        _ => panic!("make {make}"),
    }
}

/// The hash tree of an answer to /a: certified for any path, among other things.
fn tree(make: &str, n: usize, entry: Term) -> Term {
    let w = lab("<*>", entry);
    let http = |t: Term| lab("http_expr", t);
    let nest = |t: Term, n: usize| (0..n).fold(t, |t, _| lab("a", t));
    match make {
        "plain" => http(w),
        "deep" => http(f(w, nest(val([1]), n))),
        "wide" => http(f(w, balanced(0, n, &|i| lab(format!("b{i:08}"), val([1]))))),
        "left" => http(f(w, (0..n).fold(lab("z", Term::E), |t, i| f(t, lab(format!("z{i:08}"), Term::E))))),
        "right" => http(f(w, (0..n).rev().fold(lab("z", Term::E), |t, i| f(lab(format!("b{i:08}"), Term::E), t)))),
        "same" => http(f(w, balanced(0, n, &|_| lab("b", Term::E)))),
        "reverse" => http(f(w, balanced(0, n, &|i| lab(format!("b{:08}", n - i), Term::E)))),
        "empties" => http(f(w, balanced(0, n, &|_| Term::E))),
        "pruned" => http(f(w, balanced(0, n, &|i| if i % 2 == 0 { lab(format!("b{i:08}"), Term::E) } else { Term::P([3; 32]) }))),
        "siblings" => f(balanced(0, n, &|i| lab(format!("a{i:08}"), val([1]))), http(w)),
        _ => panic!("tree {make}"),
    }
}

fn url(make: &str, n: usize) -> String {
    match make {
        "segments" => "/a".repeat(n),
        "directories" => "/a".repeat(n) + "/",
        "ends" => "/%3C*%3E/%3C$%3E".repeat(n),
        "slashes" => "/".repeat(n),
        "percent" => "/".to_string() + &"%61".repeat(n),
        "wide" => "/".to_string() + &"%C3%A9".repeat(n),
        "notutf8" => "/".to_string() + &"%FF".repeat(n),
        "halfpercent" => "/a".to_string() + &"%".repeat(n),
        "long" => "/".to_string() + &"a".repeat(n),
        "query" => "/?".to_string() + &"q=1&".repeat(n),
        "questions" => "/".to_string() + &"?".repeat(n),
        "hashes" => "/".to_string() + &"#".repeat(n),
        "dots" => "/..".repeat(n),
        "host" => format!("https://{}b/", "a.".repeat(n)),
        "port" => format!("https://h:{}/", "1".repeat(n)),
        "user" => format!("https://{}h/", "u@".repeat(n)),
        _ => panic!("url {make}"),
    }
}

fn cel(make: &str, n: usize) -> String {
    let inside = |s: String| format!("default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},response_certification:{s}}}}})");
    let around = |a: &str, m: &str, b: &str| a.repeat(n) + m + &b.repeat(n);
    match make {
        "calls" => around("a(", "", ")"),
        "callsin" => inside(around("a(", "", ")")),
        "arrays" => around("[", "", "]"),
        "arraysin" => inside(around("[", "", "]")),
        "objects" => around("A{a:", "\"\"", "}"),
        "objectsin" => inside(around("A{a:", "\"\"", "}")),
        "mixed" => around("a(B{c:[", "\"\"", "]})"),
        "arguments" => format!("default_certification({})", "A{},".repeat(n)),
        "string" => inside(format!("\"{}\"", "a".repeat(n))),
        "quotes" => "\"".repeat(n),
        "escapes" => inside(format!("\"{}\"", "\\\"".repeat(n))),
        "openstring" => inside(format!("\"{}", "\\".repeat(n))),
        "names" => Ce::Response(Rc::Certified((0..n).map(|i| format!("x-{i}")).collect())).text(),
        "exclusions" => Ce::Response(Rc::Excluded((0..n).map(|i| format!("x-{i}")).collect())).text(),
        "requestnames" => Ce::Full((0..n).map(|i| format!("x-{i}")).collect(), vec![], Rc::Certified(vec![])).text(),
        "parameters" => Ce::Full(vec![], (0..n).map(|i| format!("p{i}")).collect(), Rc::Certified(vec![])).text(),
        "spaces" => Ce::Skip.text().replace('(', &format!("({}", " ".repeat(n))),
        "newlines" => Ce::Skip.text().replace('{', &format!("{{{}", "\n\t".repeat(n))),
        "commas" => inside(",".repeat(n)),
        "colons" => inside(format!("A{{{}}}", "a:".repeat(n))),
        "name" => "a".repeat(n),
        "properties" => inside(format!("A{{{}}}", (0..n).map(|i| format!("a{i}:\"\"")).collect::<Vec<_>>().join(","))),
        _ => panic!("cel {make}"),
    }
}

/// The digest of n zeros, and their compression.
fn zeros(n: usize, gz: bool) -> ([u8; 32], Vec<u8>) {
    use flate2::{write::DeflateEncoder, write::GzEncoder, Compression};
    use sha2::Digest;
    enum E {
        G(GzEncoder<Vec<u8>>),
        D(DeflateEncoder<Vec<u8>>),
    }
    let mut e = if gz { E::G(GzEncoder::new(vec![], Compression::default())) } else { E::D(DeflateEncoder::new(vec![], Compression::default())) };
    let mut h = sha2::Sha256::new();
    let mut left = n;
    while left > 0 {
        let z = &[0u8; 65536][..left.min(65536)];
        match &mut e {
            E::G(e) => e.write_all(z).unwrap(),
            E::D(e) => e.write_all(z).unwrap(),
        }
        h.update(z);
        left -= z.len()
    }
    let b = match e {
        E::G(e) => e.finish().unwrap(),
        E::D(e) => e.finish().unwrap(),
    };
    (h.finalize().into(), b)
}

fn cut(mut v: Vec<u8>, end: &str) -> Vec<u8> {
    match end {
        "cut" => {
            let n = v.len() - v.len().div_ceil(3);
            v.truncate(n)
        }
        "more" => v.push(0),
        _ => {}
    }
    v
}
fn cut_text(s: String, end: &str) -> String {
    String::from_utf8_lossy(&cut(s.into_bytes(), end)).replace('\u{0}', "x")
}

/// A certified answer, to be changed before it is finished.
struct Answer {
    x: X,
    text: String,
    place: (&'static str, usize),
    path: Vec<String>,
}
impl Answer {
    fn new(r: &mut R) -> Answer {
        let mut x = base(r);
        x.method = "GET".into();
        x.url = "/a".into();
        x.status = 200;
        x.rsb = b"body".to_vec();
        Answer { x, text: Ce::Skip.text(), place: ("plain", 0), path: vec!["http_expr".into(), "<*>".into()] }
    }
    /// The exchange, with the encoded parts of its certificate header.
    fn parts(mut self, r: &mut R, place: &str, n: usize) -> (X, Vec<u8>, Vec<u8>, Vec<u8>) {
        let text = self.text.clone();
        self.x.set("IC-CertificateExpression", &text);
        let h = |t: Term, l: Vec<u8>| lab(l, t);
        let skip = sha(text.as_bytes()).to_vec();
        // certified as nothing, and as what a list of names means
        let mut means = vec![];
        for c in [
            Ce::Response(Rc::Certified((0..n).map(|i| format!("x-{i}")).collect())),
            Ce::Response(Rc::Excluded((0..n).map(|i| format!("x-{i}")).collect())),
            Ce::Response(Rc::Excluded(vec![])),
            Ce::Full((0..n).map(|i| format!("x-{i}")).collect(), vec![], Rc::Certified(vec![])),
            Ce::Full(vec![], (0..n).map(|i| format!("p{i}")).collect(), Rc::Certified(vec![])),
        ] {
            if c.text() == text {
                means.push((c.request_hash(&self.x), c.response_hash(&self.x)))
            }
        }
        let entry = match means.pop() {
            Some((q, s)) => h(h(lab(s, val([])), q), skip),
            None => lab(skip, val([])),
        };
        let t = match self.place.0 {
            "plain" => tree(place, n, entry),
            other => tree(other, self.place.1, entry),
        };
        let d = t.digest();
        let cert = simple_cert(r, &mut self.x.led, &self.x.canister.clone(), &d, self.x.now as u64, false);
        let p = strings_cbor(&self.path);
        (self.x, cert, t.cbor(), p)
    }
}
fn header(cert: &[u8], tree: &[u8], path: &[u8]) -> String {
    format!("certificate=:{}:, tree=:{}:, expr_path=:{}:, version=2", B64.encode(cert), B64.encode(tree), B64.encode(path))
}

fn said(v: Value) -> String {
    v[0].as_str().unwrap().to_string()
}
fn verified(mut x: X, h: String) -> String {
    x.rsh.push(("IC-Certificate".into(), h));
    said(observe(&x))
}
fn result<T, E>(f: impl FnOnce() -> Result<T, E>) -> String {
    match guard(f) {
        Err(_) => "panic".into(),
        Ok(Ok(_)) => "ok".into(),
        Ok(Err(_)) => "rejected".into(),
    }
}

/// Handles a case: one word per call.
fn handle(c: &Value) -> Vec<String> {
    let s = |k: &str| c[k].as_str().unwrap_or("");
    let n = c["n"].as_u64().unwrap() as usize;
    let mut r = rng("total", c["id"].as_u64().unwrap_or(0));
    let r = &mut r;
    match s("call") {
        "decode" => {
            let v = cut(cbor(s("make"), n, r), s("end"));
            vec![
                result(|| parse_cbor(&v).map(|_| ()).map_err(|_| ())),
                result(|| HashTree::from_cbor(&v).map(|t| t.digest())),
                result(|| Certificate::from_cbor(&v).map(|_| ())),
                result(|| parse_cbor_principals_array(&v).map(|_| ())),
                result(|| parse_cbor_string_array(&v).map(|_| ())),
                result(|| serde_cbor::from_slice::<HashTree>(&v).map(|t| t.digest())),
                result(|| serde_cbor::from_slice::<Certificate>(&v).map(|_| ())),
            ]
        }
        // the same bytes as the certificate, the tree or the path of an answer
        "part" => {
            let v = cut(cbor(s("make"), n, r), s("end"));
            let mut out = vec![];
            for k in 0..3 {
                let (x, cert, t, p) = Answer::new(r).parts(r, "plain", 0);
                let h = match k {
                    0 => header(&v, &t, &p),
                    1 => header(&cert, &v, &p),
                    _ => header(&cert, &t, &v),
                };
                out.push(verified(x, h))
            }
            out
        }
        "tree" => {
            let (x, cert, t, p) = Answer::new(r).parts(r, s("make"), n);
            vec![verified(x, header(&cert, &cut(t, s("end")), &p))]
        }
        "url" => {
            let mut a = Answer::new(r);
            a.x.url = cut_text(url(s("make"), n), s("end"));
            let req = HttpRequest::builder().with_url(a.x.url.clone()).build();
            let g = [result(|| req.get_path().map(|_| ())), result(|| req.get_query().map(|_| ()))];
            if s("tree") != "" {
                a.place = (if s("tree") == "deep" { "deep" } else { "wide" }, 100)
            }
            let (x, cert, t, p) = a.parts(r, "plain", 0);
            [vec![verified(x, header(&cert, &t, &p))], g.to_vec()].concat()
        }
        "cel" => {
            let mut a = Answer::new(r);
            a.text = cut_text(cel(s("make"), n), s("end"));
            if s("make") == "parameters" {
                a.x.url = "/a?p1=2".into()
            }
            a.place = ("wide", 1);
            let (x, cert, t, p) = a.parts(r, "plain", n);
            vec![verified(x, header(&cert, &t, &p))]
        }
        "path" => {
            let mut a = Answer::new(r);
            let end = if s("make").starts_with("wild") { "<*>" } else { "<$>" };
            let seg = if s("make").ends_with("ends") { "<*>" } else { "a" };
            a.path = [vec!["http_expr".to_string()], vec![seg.to_string(); n], vec![end.to_string()]].concat();
            let (x, cert, t, p) = a.parts(r, "plain", 0);
            vec![verified(x, header(&cert, &t, &cut(p, s("end"))))]
        }
        "header" => {
            let (x, cert, t, p) = Answer::new(r).parts(r, "plain", 0);
            let good = header(&cert, &t, &p);
            let h = match s("make") {
                "fields" => "x=:AA==:, ".repeat(n) + &good,
                "repeats" => format!("certificate=:{}:, ", B64.encode(&cert)).repeat(n) + &good,
                "equals" => "=".repeat(n),
                "colons" => format!("certificate={}", ":".repeat(n)),
                "commas" => good + &",".repeat(n),
                "spaces" => " ".repeat(n) + &good,
                "name" => format!("{}=:AA==:", "a".repeat(n)),
                "base64" => format!("certificate=:{}:, tree=:AA==:", "A".repeat(n)),
                "notbase64" => format!("certificate=:{}:, tree=:AA==:", "*".repeat(n)),
                "version" => good.replace("version=2", &format!("version={}", "2".repeat(n))),
                "zeros" => good.replace("version=2", &format!("version={}2", "0".repeat(n))),
                "wide" => "\u{e9}".repeat(n),
                _ => panic!("header"),
            };
            vec![verified(x, cut_text(h, s("end")))]
        }
        "headers" => {
            let mut a = Answer::new(r);
            match s("make") {
                "response" => {
                    a.text = Ce::Response(Rc::Excluded(vec![])).text();
                    a.x.rsh = (0..n).map(|i| (format!("h{i}"), "v".into())).collect()
                }
                "same" => {
                    a.text = Ce::Response(Rc::Excluded(vec![])).text();
                    a.x.rsh = (0..n).map(|i| ("h".into(), format!("{i}"))).collect()
                }
                "listed" => {
                    a.text = Ce::Response(Rc::Certified((0..n).map(|i| format!("x-{i}")).collect())).text();
                    a.x.rsh = (0..n).map(|i| (format!("x-{i}"), "v".into())).collect()
                }
                "request" => {
                    a.text = Ce::Full((0..n).map(|i| format!("x-{i}")).collect(), vec![], Rc::Certified(vec![])).text();
                    a.x.rqh = (0..n).map(|i| (format!("x-{i}"), "v".into())).collect()
                }
                "long" => a.x.rsh = vec![("h".into(), "v".repeat(n)), ("n".repeat(n), "v".into())],
                _ => panic!("headers"),
            }
            a.place = ("wide", 1);
            let (mut x, cert, t, p) = a.parts(r, "plain", n);
            // the certificate header comes among the others
            let h = header(&cert, &t, &p);
            x.rsh.insert(x.rsh.len() / 2, ("IC-Certificate".into(), h));
            vec![said(observe(&x))]
        }
        "query" => {
            let mut a = Answer::new(r);
            a.text = Ce::Full(vec![], (0..n).map(|i| format!("p{i}")).collect(), Rc::Certified(vec![])).text();
            a.x.url = "/a?".to_string() + &(0..n).map(|i| format!("p{i}={i}")).collect::<Vec<_>>().join("&");
            a.place = ("wide", 1);
            let (x, cert, t, p) = a.parts(r, "plain", n);
            vec![verified(x, header(&cert, &t, &p))]
        }
        "body" => {
            let mut x = base(r);
            x.method = "GET".into();
            x.url = "/a".into();
            x.status = 200;
            x.min = 1;
            let gz = s("make") != "deflated";
            let (digest, enc) = match s("make") {
                "zeros" | "deflated" => {
                    let (d, b) = zeros(n, gz);
                    x.rsb = b;
                    (d, if gz { "gzip" } else { "deflate" })
                }
                "random" => {
                    let b = bytes(r, n);
                    x.rsb = compress(&b, true);
                    (sha(&b), "gzip")
                }
                _ => {
                    x.rsb = bytes(r, n);
                    (sha(&x.rsb), "identity")
                }
            };
            x.rsb = cut(x.rsb, s("end"));
            x.rsh.push(("Content-Encoding".into(), enc.into()));
            let t = lab("http_assets", lab("/a", val(digest)));
            let d = t.digest();
            let cert = simple_cert(r, &mut x.led, &x.canister.clone(), &d, x.now as u64, false);
            let h = format!("certificate=:{}:, tree=:{}:", B64.encode(cert), B64.encode(t.cbor()));
            vec![verified(x, h)]
        }
        // anything, a little damaged
        "damaged" => {
            let mut out = vec![];
            for _ in 0..n {
                let (mut x, mut cert, mut t, mut p) = Answer::new(r).parts(r, "plain", 0);
                let damage = |v: &mut Vec<u8>, r: &mut R| {
                    for _ in 0..r.gen_range(1..4) {
                        let k = r.gen_range(0..v.len().max(1));
                        match r.gen_range(0..5) {
                            0 if k < v.len() => v[k] = r.gen(),
                            1 if k < v.len() => v[k] ^= 1 << r.gen_range(0..8),
                            2 if k < v.len() => {
                                v.remove(k);
                            }
                            3 => v.insert(k.min(v.len()), *pick(r, &[0u8, 0xff, 0x81, 0x9f, 0xa1, 0x5b, 0x1b, 0xc0, 0x83, 0x7f])),
                            _ => v.truncate(k),
                        }
                    }
                };
                let mut text = x.rsh.iter().find(|h| h.0 == "IC-CertificateExpression").unwrap().1.clone().into_bytes();
                match r.gen_range(0..6) {
                    0 => damage(&mut cert, r),
                    1 => damage(&mut t, r),
                    2 => damage(&mut p, r),
                    3 => {
                        damage(&mut text, r);
                        x.set("IC-CertificateExpression", &String::from_utf8_lossy(&text))
                    }
                    4 => {
                        let mut u = x.url.clone().into_bytes();
                        damage(&mut u, r);
                        x.url = String::from_utf8_lossy(&u).to_string()
                    }
                    _ => {}
                }
                let mut h = header(&cert, &t, &p).into_bytes();
                if chance(r, 20) {
                    damage(&mut h, r)
                }
                out.push(verified(x, String::from_utf8_lossy(&h).to_string()));
                let opts = json!({});
                let k = certs::make(r, &opts);
                let mut k = k;
                damage(&mut k.cert, r);
                if chance(r, 20) {
                    damage(&mut k.root, r)
                }
                out.push(match said(certs::observe(&k)).as_str() {
                    "undecodable" => "rejected".into(),
                    o => o.into(),
                });
            }
            out
        }
        other => panic!("call {other}"),
    }
}

pub fn child(file: &str, from: usize, step: usize) {
    let cases = read_lines(file);
    let mut i = from;
    while i < cases.len() {
        let c = cases[i].clone();
        let got = std::thread::Builder::new().stack_size(STACK).spawn(move || handle(&c)).unwrap().join();
        let got = got.unwrap_or_else(|_| vec!["harness".into()]);
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", json!([i, got])).unwrap();
        o.flush().unwrap();
        i += step;
    }
}

/// The results of the cases from, from + step, from + 2 * step...
fn serve(file: &str, from: usize, step: usize, len: usize) -> Vec<(usize, Value)> {
    let exe = std::env::current_exe().unwrap();
    let mut out = vec![];
    let mut at = from;
    while at < len {
        let mut p = Command::new("/bin/sh")
            .args(["-c", &format!("ulimit -c 0; ulimit -v {MEMORY_KB}; exec \"$0\" \"$@\"")])
            .arg(&exe)
            .args(["total-child", "--scen", file, "--from", &at.to_string(), "--step", &step.to_string()])
            .env("RAYON_NUM_THREADS", "1")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("child");
        let (tx, rx) = mpsc::channel();
        let o = p.stdout.take().unwrap();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        while at < len {
            match rx.recv_timeout(Duration::from_secs(SECONDS)) {
                Ok(l) => {
                    let v: Value = serde_json::from_str(&l).expect("child output");
                    assert_eq!(v[0].as_u64().unwrap() as usize, at);
                    out.push((at, v[1].clone()));
                    at += step;
                }
                Err(e) => {
                    let word = if e == mpsc::RecvTimeoutError::Timeout { "slow" } else { "crash" };
                    out.push((at, json!([word])));
                    at += step;
                    break;
                }
            }
        }
        let _ = p.kill();
        let _ = p.wait();
    }
    out
}

pub fn run(n: usize, scen: &[Value], out: &str) -> Vec<Value> {
    let mut cases: Vec<Value> = scen.to_vec();
    cases.extend((0..n).map(|_| json!({"call": "damaged", "make": "", "n": 20, "end": "whole"})));
    for (i, c) in cases.iter_mut().enumerate() {
        c["id"] = json!(i)
    }
    let file = format!("{out}.cases");
    write_lines(&file, &cases);
    let lanes = 8;
    let mut got: Vec<(usize, Value)> = (0..lanes).into_par_iter().flat_map(|k| serve(&file, k, lanes, cases.len())).collect();
    got.sort_by_key(|g| g.0);
    let _ = std::fs::remove_file(&file);
    got.into_iter()
        .map(|(i, v)| {
            let mut c = cases[i].clone();
            c["kind"] = json!("total");
            c["got"] = v;
            c
        })
        .collect()
}
