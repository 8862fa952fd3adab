mod asset;
mod cbor;
mod cel;
mod certs;
mod certtree;
mod hashes;
mod maps;
mod term;
mod total;
mod trees;
mod util;
mod verify;
mod world;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let area = args[1].as_str();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let n: usize = opt.get("n").map(|x| x.parse().unwrap()).unwrap_or(100);
    let scen = opt.get("scen").map(|p| util::read_lines(p)).unwrap_or_default();
    // a sample of the scenarios, if there are more than wanted
    let take: usize = opt.get("take").map(|x| x.parse().unwrap()).unwrap_or(0);
    let scen = if take > 0 && scen.len() > take {
        use rand::seq::index::sample;
        let mut idx = sample(&mut util::rng("take", 0), scen.len(), take).into_vec();
        idx.sort();
        idx.into_iter().map(|i| scen[i].clone()).collect()
    } else {
        scen
    };
    let num = |k: &str, d: usize| opt.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    util::install_quiet_panics();
    if area == "total-child" {
        return total::child(&opt["scen"], num("from", 0), num("step", 1));
    }
    let lines = match area {
        "lookup" => trees::run("lookup", n, &scen),
        "digest" => trees::run("digest", n, &scen),
        "cert" => certs::run(n, &scen),
        "history" => certs::histories(n, &scen),
        "verify" => verify::run(n, &scen, opt.get("label").map(|s| s.as_str()).unwrap_or(""), num("reps", 1)),
        "paths" => verify::run_paths(n, &scen),
        "map" => maps::run_map(n, &scen),
        "nested" => maps::run_nested(n, &scen),
        "certtree" => certtree::run(n, &scen, num("verify", 0) as u32),
        "certify" => certtree::run_certify(n, &scen),
        "rih" => hashes::run_rih(n, &scen),
        "request" => hashes::run_request(n, &scen),
        "response" => hashes::run_response(n, &scen),
        "url" => hashes::run_url(n, &scen),
        "asset" => asset::run(n, &scen, opt.get("label").map(|s| s.as_str()).unwrap_or("")),
        "cbor" => cbor::run(n, &scen),
        "total" => total::run(n, &scen, &opt["out"]),
        "cel" => cel::run(n, &scen),
        "candid" => hashes::run_candid(n, &scen),
        _ => {
            eprintln!("unknown area {area}");
            std::process::exit(2)
        }
    };
    util::write_lines(&opt["out"], &lines);
}
