//! C38: generated secrets are fresh, fully random and never published.
use crate::core::*;
use crate::refm;
use algorsand::crypto::{Hashable, OTSIdentifier, OTSSecrets};
use algorsand::data::account::{self, Participation, Root};
use algorsand::data::basics::{Address, MicroAlgos, Round};
use algorsand::protocol;
use rand::Rng;
use serde_json::{json, Value};
use sha2::{Digest, Sha256, Sha512};
use std::collections::{HashMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

struct Msg(Vec<u8>);
impl Hashable for Msg {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::VOTE, self.0.clone())
    }
}

/// What one run of key generation brought about.
#[derive(Default)]
struct Made {
    /// (what kind of key, its secret)
    secrets: Vec<(&'static str, [u8; 32])>,
    /// public halves of keys whose secrets stay inside
    publics: Vec<(&'static str, [u8; 32])>,
    /// what the network gets to see
    published: Vec<(&'static str, Vec<u8>)>,
}

const KINDS: [&str; 5] = ["spending key", "selection key", "batch key", "offset key", "one-use key"];

fn sha256(b: &[u8]) -> [u8; 32] {
    arr(&Sha256::digest(b))
}

fn arr(b: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(&b[..32]);
    a
}

#[derive(Clone, Debug)]
struct Plan {
    start: u64,
    batches: u64,
    dilution: u64,
    /// deletions up to these identifiers, in order
    to: Vec<(u64, u64)>,
    signed: Vec<(u64, u64)>,
    message: Vec<u8>,
}

fn plan(c: &mut Ctx) -> Plan {
    let start = if c.rng.gen() { 0 } else { u64_biased(&mut c.rng) >> 1 };
    let batches = if c.rng.gen_range(0, 12) == 0 { c.rng.gen_range(12, 80) } else { c.rng.gen_range(1, 12) };
    let dilution = if c.rng.gen_range(0, 24) == 0 { c.rng.gen_range(255, 600) } else { c.rng.gen_range(1, 24) };
    let id = |c: &mut Ctx| (start + c.rng.gen_range(0, batches), c.rng.gen_range(0, dilution));
    let mut to: Vec<_> = (0..c.rng.gen_range(0, 4)).map(|_| id(c)).collect();
    to.sort();
    let n = c.rng.gen_range(0, 6);
    let mut signed: Vec<_> = (0..n).map(|_| id(c)).collect();
    signed.sort();
    signed.dedup();
    let n = c.rng.gen_range(0, 40);
    Plan { start, batches, dilution, to, signed, message: bytes(&mut c.rng, n) }
}

fn follow(p: &Plan, s: &mut OTSSecrets, m: &mut Made) {
    let mut had: HashSet<[u8; 32]> = HashSet::new();
    let mut look = |s: &OTSSecrets, m: &mut Made| {
        for (_, off, x) in s.verif_held_secrets() {
            if had.insert(x) {
                m.secrets.push((if off.is_some() { "offset key" } else { "batch key" }, x));
            }
        }
    };
    look(s, m);
    m.publics.push(("verifier", s.verifier.to_bytes()));
    for &(batch, offset) in &p.signed {
        let o = s.sign(&OTSIdentifier { batch, offset }, &Msg(p.message.clone()));
        m.publics.push(("one-use key", o.pk.to_bytes()));
        m.published.push(("one-time signature", protocol::encode(&o)));
    }
    for &(batch, offset) in &p.to {
        s.delete_before(OTSIdentifier { batch, offset }, p.dilution);
        look(s, m);
    }
}

fn voting(p: &Plan) -> Made {
    let mut m = Made::default();
    let mut s = OTSSecrets::generate(p.start, p.batches);
    follow(p, &mut s, &mut m);
    m
}

fn stored(p: &Plan, parent: [u8; 32]) -> Result<Made, String> {
    let mut m = Made::default();
    let r = Root::generate().map_err(|e| format!("{:?}", e))?;
    m.secrets.push(("spending key", r.kp.secret.to_bytes()));
    m.published.push(("address", r.address().0.to_vec()));
    let first = p.start.min(1 << 32) * p.dilution;
    let mut k = Participation::fill_db_with_participation_keys(Address(parent), Round(first), Round(first + p.batches * p.dilution - 1), p.dilution).map_err(|e| format!("{:?}", e))?;
    if let Some(v) = serde_json::to_value(&k.vrf).ok().and_then(|v| serde_json::from_value::<Vec<u8>>(v["private"].clone()).ok()) {
        m.secrets.push(("selection key", arr(&v)));
    }
    m.publics.push(("selection key", arr(&k.vrf.public().verif_bytes())));
    if let Ok(x) = k.vrf.prove_bytes(&p.message) {
        m.published.push(("selection proof", x.verif_bytes().to_vec()));
    }
    let reg = k.generate_registration_transaction(MicroAlgos(1000), Round(first), Round(first + 1000), [0; 32]);
    m.published.push(("registration", protocol::encode(&reg.sign(&r.kp))));
    let p = Plan { start: p.start.min(1 << 32), to: p.to.iter().map(|x| (x.0 - p.start + p.start.min(1 << 32), x.1)).collect(), signed: p.signed.iter().map(|x| (x.0 - p.start + p.start.min(1 << 32), x.1)).collect(), ..p.clone() };
    follow(&p, &mut k.voting, &mut m);
    Ok(m)
}

/// Everything seen so far.
#[derive(Default)]
struct Seen {
    words: HashMap<[u8; 8], &'static str>,
    publics: HashSet<[u8; 32]>,
    ones: HashMap<&'static str, (u64, Vec<u64>)>,
}

impl Seen {
    fn judge(&mut self, c: &mut Ctx, m: &Made, how: &str, d: &dyn Fn() -> Value) {
        for (kind, s) in &m.secrets {
            c.count(&format!("{}s", kind), 1);
            for (i, w) in s.chunks(8).enumerate() {
                let mut k = [0; 8];
                k.copy_from_slice(w);
                if let Some(before) = self.words.insert(k, kind) {
                    let what = format!("a {} shares bytes with an earlier {}", kind, before);
                    c.violation(&what, json!({"generated": d(), "how": how, "secret": hex(s), "bytes from": i * 8}));
                    return;
                }
            }
            let e = self.ones.entry(kind).or_insert_with(|| (0, vec![0; 256]));
            e.0 += 1;
            for b in 0..256 {
                e.1[b] += (s[b / 8] >> (b % 8) & 1) as u64;
            }
        }
        for (kind, p) in &m.publics {
            if !self.publics.insert(*p) {
                c.violation(&format!("a {} is used twice", kind), json!({"generated": d(), "how": how, "public": hex(p)}));
                return;
            }
            // what anyone can work out from it
            for h in [*p, refm::h256(&[p]), sha256(p), arr(&Sha512::digest(p))] {
                if let Some(of) = h.chunks(8).find_map(|w| self.words.get(w)) {
                    c.violation(&format!("a {} can be worked out from a {}", of, kind), json!({"generated": d(), "how": how, "public": hex(p)}));
                    return;
                }
            }
            c.count("public keys compared", 1);
        }
        for (kind, b) in &m.published {
            for w in b.windows(8) {
                if let Some(of) = self.words.get(w) {
                    c.violation(&format!("a {} shows part of a {}", kind, of), json!({"generated": d(), "how": how, "published": hex(b)}));
                    return;
                }
            }
            c.count("published objects searched for secrets", 1);
        }
    }

    fn balance(&self, c: &mut Ctx) {
        for (kind, (n, ones)) in &self.ones {
            if *n < 200 {
                continue;
            }
            for (b, k) in ones.iter().enumerate() {
                let off = (*k as f64 - *n as f64 / 2.0).abs() / (*n as f64).sqrt() * 2.0;
                c.check(off < 8.0, &format!("bits of a {} are not evenly random", kind), || json!({"bit": b, "ones": k, "of": n}));
                c.count("bit positions weighed", 1);
            }
        }
    }
}

/// Generates by a plan in a process of its own and shows everything.
pub fn sub(args: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&args[0]).unwrap();
    let ids = |x: &Value| -> Vec<(u64, u64)> { serde_json::from_value(x.clone()).unwrap() };
    let p = Plan { start: v["start"].as_u64().unwrap(), batches: v["batches"].as_u64().unwrap(), dilution: v["dilution"].as_u64().unwrap(), to: ids(&v["to"]), signed: ids(&v["signed"]), message: vec![1, 2, 3] };
    account::use_key_store(&args[1]);
    let mut all = Vec::new();
    for _ in 0..4 {
        match stored(&p, [9; 32]) {
            Ok(m) => all.push(json!({"secrets": m.secrets.iter().map(|x| (KINDS.iter().position(|k| *k == x.0), x.1.to_vec())).collect::<Vec<_>>(), "published": m.published.iter().map(|x| x.1.clone()).collect::<Vec<_>>()})),
            Err(e) => { eprintln!("{}", e); return 1 }
        }
    }
    println!("{}", json!(all));
    0
}

fn processes(c: &mut Ctx, p: &Plan, seen: &mut Seen, k: u64, d: &dyn Fn() -> Value) {
    let here = std::env::current_dir().unwrap();
    let arg = json!({"start": p.start, "batches": p.batches, "dilution": p.dilution, "to": p.to, "signed": p.signed}).to_string();
    let kids: Vec<_> = (0..3).map(|j| {
        let store = here.join(format!("store{}-{}", k, j));
        let kid = Command::new(std::env::current_exe().unwrap()).args(["--sub", "c38", &arg]).arg(&store).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        (kid, store)
    }).collect();
    for (kid, store) in kids {
        let o = kid.wait_with_output().unwrap();
        let _ = std::fs::remove_dir_all(&store);
        let v: Value = serde_json::from_slice(&o.stdout).unwrap_or_default();
        let all = match v.as_array() { Some(a) => a.clone(), None => { c.count("processes failed", 1); continue } };
        for r in all {
            let secrets: Vec<(usize, Vec<u8>)> = serde_json::from_value(r["secrets"].clone()).unwrap();
            let published: Vec<Vec<u8>> = serde_json::from_value(r["published"].clone()).unwrap();
            let m = Made { secrets: secrets.iter().map(|x| (KINDS[x.0], arr(&x.1))).collect(), publics: vec![], published: published.into_iter().map(|x| ("published object", x)).collect() };
            seen.judge(c, &m, "in processes of their own", d);
        }
        c.count("processes compared", 1);
    }
}

pub fn c38(c: &mut Ctx) {
    c.rule = "every way of generating keys, again and again with the same arguments and with others, in one thread, in several at once and in processes of their own, with one-time keys used and deleted in between; every eight bytes of every secret compared with those of all other secrets and searched for in everything published, and the bits weighed".into();
    account::use_key_store(std::env::current_dir().unwrap().join("fresh.db"));
    let mut seen = Seen::default();
    let n = c.n(4000, 200_000);
    let mut i = 0;
    while i < n && c.in_time(12, 480) {
        i += 1;
        let p = plan(c);
        let d = || json!({"plan": format!("{:?}", p)});
        c.about(&format!("{:?}", p));
        c.case(format!("{:?}", p).as_bytes(), !p.to.is_empty() || !p.signed.is_empty());
        match i % 8 {
            0 => {
                let barrier = Arc::new(Barrier::new(4));
                let hands: Vec<_> = (0..4).map(|_| {
                    let (p, b) = (p.clone(), barrier.clone());
                    std::thread::spawn(move || { b.wait(); voting(&p) })
                }).collect();
                for h in hands {
                    match h.join() {
                        Ok(m) => seen.judge(c, &m, "in several threads", &d),
                        Err(_) => c.violation("generating keys: panic", d()),
                    }
                }
                c.count("generations in several threads", 4);
            }
            1 | 2 | 3 => for _ in 0..2 {
                if let Some(r) = c.no_panic("generating keys", d, || stored(&p, [7; 32])) {
                    match r {
                        Ok(m) => seen.judge(c, &m, "and stored", &d),
                        Err(e) => c.violation("keys not generated", json!({"at": d(), "error": e})),
                    }
                    c.count("generations into a store", 1);
                }
            },
            4 if i % 64 == 4 => processes(c, &p, &mut seen, i, &d),
            _ => for _ in 0..2 {
                if let Some(m) = c.no_panic("generating keys", d, || voting(&p)) {
                    seen.judge(c, &m, "twice with the same arguments", &d);
                    c.count("plain generations", 1);
                }
            },
        }
        if i == 1 { c.sample(d()); }
        if c.has_violations() { break }
    }
    seen.balance(c);
    c.require("spending keys", 800);
    c.require("selection keys", 800);
    c.require("batch keys", 5000);
    c.require("offset keys", 4000);
    c.require("public keys compared", 2000);
    c.require("published objects searched for secrets", 2000);
    c.require("processes compared", 12);
    c.require("bit positions weighed", 256);
}
