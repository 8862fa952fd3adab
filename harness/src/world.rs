//! Keys, signatures and certificates made by the harness itself.
use crate::term::*;
use crate::util::*;
use miracl_core_bls12381::bls12381::bls::{core_sign, init, key_pair_generate};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub const DER_PREFIX: [u8; 37] = *b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";
pub const DOMAIN: &[u8] = b"\x0Dic-state-root";

#[derive(Clone)]
pub struct Key {
    sk: [u8; 48],
    pub pk: [u8; 96],
}

impl Key {
    pub fn der(&self) -> Vec<u8> {
        [DER_PREFIX.to_vec(), self.pk.to_vec()].concat()
    }
}

/// The key with the given name, always the same.
pub fn key(name: &str) -> Key {
    static KEYS: OnceLock<Mutex<HashMap<String, Key>>> = OnceLock::new();
    let m = KEYS.get_or_init(|| {
        init();
        Mutex::new(HashMap::new())
    });
    m.lock()
        .unwrap()
        .entry(name.to_string())
        .or_insert_with(|| {
            let ikm = sha(format!("key {name}").as_bytes());
            let (mut sk, mut pk) = ([0u8; 48], [0u8; 96]);
            key_pair_generate(&ikm, &mut sk, &mut pk);
            Key { sk, pk }
        })
        .clone()
}

/// The signatures made for one run.
#[derive(Clone, Default)]
pub struct Ledger(pub Vec<([u8; 96], Vec<u8>, Vec<u8>)>);

impl Ledger {
    pub fn sign(&mut self, k: &Key, msg: &[u8]) -> Vec<u8> {
        type Cache = Mutex<HashMap<([u8; 32], [u8; 32]), Vec<u8>>>;
        static SIGS: OnceLock<Cache> = OnceLock::new();
        let c = SIGS.get_or_init(Default::default);
        let id = (sha(&k.pk), sha(msg));
        let hit = c.lock().unwrap().get(&id).cloned();
        let s = hit.unwrap_or_else(|| {
            let mut s = [0u8; 48];
            core_sign(&mut s, msg, &k.sk);
            c.lock().unwrap().insert(id, s.to_vec());
            s.to_vec()
        });
        let e = (k.pk, s.clone(), msg.to_vec());
        if !self.0.contains(&e) {
            self.0.push(e);
        }
        s
    }

    pub fn sign_tree(&mut self, k: &Key, t: &Term) -> Vec<u8> {
        self.sign(k, &[DOMAIN, &t.digest()].concat())
    }

    pub fn json(&self) -> Value {
        Value::Array(
            self.0
                .iter()
                .map(|(k, s, m)| json!({"k": hex::encode(k), "s": hex::encode(s), "m": hex::encode(m)}))
                .collect(),
        )
    }
}

pub fn leb(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}

pub fn cert_cbor(tree: &Term, sig: &[u8], deleg: Option<(&[u8], &[u8])>) -> Vec<u8> {
    let mut v = vec![0xd9, 0xd9, 0xf7];
    cbor_head(&mut v, 5, if deleg.is_some() { 3 } else { 2 });
    cbor_text(&mut v, "tree");
    v.extend(tree.cbor());
    cbor_text(&mut v, "signature");
    cbor_bytes(&mut v, sig);
    if let Some((subnet, cert)) = deleg {
        cbor_text(&mut v, "delegation");
        cbor_head(&mut v, 5, 2);
        cbor_text(&mut v, "subnet_id");
        cbor_bytes(&mut v, subnet);
        cbor_text(&mut v, "certificate");
        cbor_bytes(&mut v, cert);
    }
    v
}

pub fn ranges_cbor(rs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![0xd9, 0xd9, 0xf7];
    cbor_head(&mut v, 4, rs.len() as u64);
    for (a, b) in rs {
        cbor_head(&mut v, 4, 2);
        cbor_bytes(&mut v, a);
        cbor_bytes(&mut v, b);
    }
    v
}

pub fn strings_cbor(ss: &[String]) -> Vec<u8> {
    let mut v = vec![0xd9, 0xd9, 0xf7];
    cbor_head(&mut v, 4, ss.len() as u64);
    for s in ss {
        cbor_text(&mut v, s);
    }
    v
}

/// A plain certificate for a canister and its certified data: the common case.
pub fn simple_cert(
    r: &mut R,
    led: &mut Ledger,
    canister: &[u8],
    data: &[u8],
    time: u64,
    delegated: bool,
) -> Vec<u8> {
    let entries = vec![
        (vec![b"time".to_vec()], leb(time)),
        (
            vec![b"canister".to_vec(), canister.to_vec(), b"certified_data".to_vec()],
            data.to_vec(),
        ),
    ];
    let tree = build(r, entries);
    if !delegated {
        let s = led.sign_tree(&key("root"), &tree);
        return cert_cbor(&tree, &s, None);
    }
    let sub = b"subnet-1".to_vec();
    let s = led.sign_tree(&key("subnet"), &tree);
    let mut hi = canister.to_vec();
    if let Some(x) = hi.last_mut() {
        *x = x.saturating_add(3)
    }
    let dtree = build(
        r,
        vec![
            (vec![b"time".to_vec()], leb(5)),
            (
                vec![b"subnet".to_vec(), sub.clone(), b"canister_ranges".to_vec()],
                ranges_cbor(&[(canister.to_vec(), hi)]),
            ),
            (
                vec![b"subnet".to_vec(), sub.clone(), b"public_key".to_vec()],
                key("subnet").der(),
            ),
        ],
    );
    let ds = led.sign_tree(&key("root"), &dtree);
    let d = cert_cbor(&dtree, &ds, None);
    cert_cbor(&tree, &s, Some((&sub, &d)))
}
