//! C21: the text the library writes for an expression, and the meaning the verifier gives to a text.
use crate::certtree::*;
use crate::term::*;
use crate::util::*;
use crate::verify::*;
use crate::world::*;
use ic_http_certification::cel::*;
use ic_http_certification::{DefaultCelBuilder, DefaultResponseCertification};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};

fn names(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// Every meaning that can be told apart by the request and response of `text_case`.
fn candidates() -> Vec<Ce> {
    let rs: [&[&str]; 4] = [&[], &["x-one"], &["x-two"], &["x-one", "x-two"]];
    let mut v = vec![];
    for rc in rs {
        let rc = Rc::Certified(names(rc));
        v.push(Ce::Response(rc.clone()));
        for h in [&[][..], &["host"][..]] {
            for p in [&[][..], &["p"][..]] {
                v.push(Ce::Full(names(h), names(p), rc.clone()))
            }
        }
    }
    v
}

/// A response whose expression is the text, in a tree that certifies it for the given meanings.
fn text_case(r: &mut R, text: &str, meanings: &[Ce], opts: Value) -> X {
    let mut x = base(r);
    x.method = "GET".into();
    x.url = "/a?p=1&q=2".into();
    x.rqh = vec![("Host".into(), "h".into()), ("X-Q".into(), "q".into())];
    x.status = 200;
    x.rsb = b"body".to_vec();
    x.rsh = vec![("X-One".into(), "1".into()), ("x-two".into(), "2".into())];
    x.set("IC-CertificateExpression", text);
    let entries = meanings
        .iter()
        .map(|m| {
            let mut p = b(&expr_path("/a", false));
            p.extend([sha(text.as_bytes()).to_vec(), m.request_hash(&x), m.response_hash(&x)]);
            (p, vec![])
        })
        .collect();
    let tree = build(r, entries);
    let d = tree.digest();
    let cert = simple_cert(r, &mut x.led, &x.canister.clone(), &d, x.now as u64, false);
    finish(r, &json!({}), &mut x, &cert, &tree, Some(&expr_path("/a", false)), "2");
    x.opts = opts;
    x
}

fn cases(r: &mut R, text: &str) -> Vec<Value> {
    let mut all = candidates();
    let mut v = vec![];
    let mut add = |r: &mut R, ms: &[Ce], what: &str| {
        let x = text_case(r, text, ms, json!({"text": text, "tree": what}));
        v.push(run_json(&x, observe(&x)));
    };
    add(r, &all, "all");
    if chance(r, 30) {
        all.shuffle(r);
        let k = if chance(r, 50) { 1 } else { all.len() / 2 };
        add(r, &all[..k], "some")
    }
    v
}

const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "\"", ":", ",", "x", "host", "x-one", "X-TWO", "p", "", " ", "\n", "\t", "\r", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}",
    "\u{feff}", "\0", "\\", "\\\"", "\\n", "'", "''", "=", ";", "//", "/**/", "_", "-", "0", "null", "true", "!#$%&'*+-.^_`|~", "\u{e9}", "\u{1f600}",
    "default_certification", "ValidationArgs", "no_certification", "certification", "Certification", "Empty", "no_request_certification",
    "request_certification", "RequestCertification", "certified_request_headers", "certified_query_parameters", "response_certification",
    "ResponseCertification", "ResponseHeaderList", "headers", "certified_response_headers", "response_header_exclusions", "Empty{}", "\"host\"", "[]",
    ",other:\"x\"", ",no_certification:Empty{}", ",no_request_certification:Empty{}", "Empty(\"x\")", "((((((((((((((((((((((((((((((((",
];

fn tokens(text: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in text.chars() {
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '-';
        match v.last_mut() {
            Some(l) if word(c) && l.chars().last().is_some_and(word) => l.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

/// A text that differs from a well formed one in a few places.
fn odd_text(r: &mut R) -> String {
    let universe = |r: &mut R, v: &[&str]| -> Vec<String> {
        let mut o = vec![];
        for n in v {
            if chance(r, 50) {
                o.push(if chance(r, 20) { n.to_ascii_uppercase() } else { n.to_string() })
            }
        }
        if chance(r, 15) {
            o.extend(lists(r, 2))
        }
        o.shuffle(r);
        o
    };
    let l = universe(r, &["x-one", "x-two"]);
    let rc = if chance(r, 50) { Rc::Certified(l) } else { Rc::Excluded(l) };
    let ce = match r.gen_range(0..6) {
        0 => Ce::Skip,
        1 | 2 => Ce::Response(rc),
        _ => Ce::Full(universe(r, &["host"]), universe(r, &["p"]), rc),
    };
    let mut t = tokens(&ce.text());
    for _ in 0..r.gen_range(0..4) {
        let i = r.gen_range(0..t.len());
        let j = r.gen_range(0..t.len());
        match r.gen_range(0..11) {
            // a name with another character in it
            8 => {
                let quoted: Vec<usize> = (1..t.len().max(2) - 1).filter(|i| t[i - 1] == "\"" && t.get(i + 1).is_some_and(|x| x == "\"")).collect();
                if !quoted.is_empty() {
                    let k = *pick(r, &quoted);
                    let c = if chance(r, 70) { r.gen_range(32u8..127) as char } else { *pick(r, &['\0', '\t', '\n', '\u{7f}', '\u{a0}', '\u{e9}', '\u{212a}']) };
                    let at = *pick(r, &[0, t[k].len() / 2, t[k].len()]);
                    if t[k].is_char_boundary(at) {
                        t[k].insert(at, c)
                    }
                }
            }
            // something before or after it all
            9 => {
                let x = if chance(r, 60) { pick(r, TOKENS).to_string() } else { (r.gen_range(32u8..127) as char).to_string() };
                if chance(r, 70) {
                    t.push(x)
                } else {
                    t.insert(0, x)
                }
            }
            // further properties, some of them twice
            10 => {
                let ends: Vec<usize> = (1..t.len()).filter(|i| t[*i] == ":").collect();
                if !ends.is_empty() {
                    let c = *pick(r, &ends);
                    // the property's value ends before the next comma or closing brace of its level
                    let mut depth = 0;
                    let mut e = c + 1;
                    while e < t.len() {
                        match t[e].as_str() {
                            "(" | "[" | "{" => depth += 1,
                            "," if depth == 0 => break,
                            ")" | "]" | "}" => {
                                if depth == 0 {
                                    break;
                                }
                                depth -= 1
                            }
                            _ => {}
                        }
                        e += 1
                    }
                    let property: Vec<String> = t[c - 1..e].to_vec();
                    let again = chance(r, 70);
                    let mut more = vec![];
                    for k in 0..*pick(r, &[0usize, 1, 2, 3, 4, 5, 9, 17]) {
                        more.extend([format!("x{k}"), ":".into(), "\"v\"".into(), ",".into()])
                    }
                    if again {
                        more.extend(property);
                        more.push(",".into())
                    }
                    for (k, s) in more.into_iter().enumerate() {
                        t.insert(c - 1 + k, s)
                    }
                }
            }
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, pick(r, TOKENS).to_string()),
            2 => t[i] = pick(r, TOKENS).to_string(),
            3 => t.swap(i, j),
            4 => {
                let s = t[i.min(j)..i.max(j)].to_vec();
                for (k, s) in s.into_iter().enumerate() {
                    t.insert(i.max(j) + k, s)
                }
            }
            5 => {
                t.drain(i.min(j)..i.max(j));
            }
            6 => {
                let space = pick(r, &[" ", "\n", "\t", "\r\n", "  ", "\u{c}", "\u{a0}"]).to_string();
                if chance(r, 50) {
                    t.insert(i, space)
                } else {
                    for s in t.iter_mut() {
                        if ["(", ")", "{", "}", "[", "]", ":", ","].contains(&s.as_str()) {
                            *s = format!("{s}{space}")
                        }
                    }
                }
            }
            _ => {
                let w = t[i].clone();
                t[i] = w.chars().map(|c| if chance(r, 50) { c.to_ascii_uppercase() } else { c }).collect();
            }
        }
        if t.is_empty() {
            t.push(String::new())
        }
    }
    t.concat()
}

fn token_name(r: &mut R) -> String {
    const C: &[u8] = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    (0..size(r, 11)).map(|_| *pick(r, C) as char).collect()
}

/// The texts that the library writes for a meaning, by every way there is to write it.
fn written(r: &mut R, ce: &Ce) -> Value {
    let mut texts = vec![lib_text(ce)];
    let mut push = |e: DefaultCelExpression| {
        texts.push(create_default_cel_expr(&e));
        texts.push(e.to_string());
        let e = CelExpression::Default(e);
        texts.push(create_cel_expr(&e));
        texts.push(e.to_string());
    };
    match ce {
        Ce::Skip => {
            push(DefaultCelExpression::Skip);
            texts.push(create_default_skip_cel_expr())
        }
        Ce::Response(rc) => {
            let e = lib_response(rc);
            push(DefaultCelExpression::ResponseOnly(e.clone()));
            texts.push(create_default_response_only_cel_expr(&e));
            if matches!(rc, Rc::Certified(v) if v.is_empty()) {
                texts.push(DefaultCelBuilder::response_only_certification().build().to_string());
                texts.push(DefaultResponseOnlyCelExpression { response: DefaultResponseCertification::default() }.to_string());
            }
        }
        Ce::Full(h, p, rc) => {
            let e = lib_full(h, p, rc);
            push(DefaultCelExpression::Full(e.clone()));
            texts.push(create_default_full_cel_expr(&e));
            // what is not said is empty
            let (hs, ps): (Vec<&str>, Vec<&str>) = (h.iter().map(|s| &**s).collect(), p.iter().map(|s| &**s).collect());
            let mut b = DefaultCelBuilder::full_certification();
            if chance(r, 50) {
                b = b.with_request_headers(vec!["overwritten"]).with_response_certification(DefaultResponseCertification::response_header_exclusions(vec!["x"]));
                b = b.with_request_headers(hs.clone()).with_response_certification(lib_rc(rc));
            } else {
                if !hs.is_empty() {
                    b = b.with_request_headers(hs.clone())
                }
                if !matches!(rc, Rc::Certified(v) if v.is_empty()) {
                    b = b.with_response_certification(lib_rc(rc))
                }
            }
            if !ps.is_empty() {
                b = b.with_request_query_parameters(ps.clone())
            }
            texts.push(b.build().to_string());
        }
    }
    texts.sort();
    texts.dedup();
    json!({"kind": "written", "meaning": ce_json(ce), "texts": texts})
}

fn random_meaning(r: &mut R) -> Ce {
    let l = |r: &mut R| (0..size(r, 3)).map(|_| token_name(r)).collect::<Vec<_>>();
    let rc = if chance(r, 50) { Rc::Certified(l(r)) } else { Rc::Excluded(l(r)) };
    match r.gen_range(0..8) {
        0 => Ce::Skip,
        1..=3 => Ce::Response(rc),
        _ => Ce::Full(l(r), l(r), rc),
    }
}

pub fn run(n: usize, scen: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = scen
        .par_iter()
        .enumerate()
        .flat_map(|(i, s)| cases(&mut rng("cel-scen", i as u64), s["text"].as_str().unwrap()))
        .collect();
    out.par_extend((0..n).into_par_iter().flat_map(|i| {
        let mut r = rng("cel", i as u64);
        if i % 3 == 0 {
            let ce = random_meaning(&mut r);
            // what the library writes is also what the verifier reads
            let mut v = vec![written(&mut r, &ce)];
            let x = text_case(&mut r, &lib_text(&ce), &[ce.clone()], json!({"written": true}));
            v.push(run_json(&x, observe(&x)));
            v
        } else {
            let t = odd_text(&mut r);
            cases(&mut r, &t)
        }
    }));
    out
}
