//! C31: the same work sequentially and from many threads, for plain and sanitized builds of this program.
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};

use algorsand::config;
use algorsand::crypto::merklearray::Tree;
use algorsand::crypto::merkletrie::{InMemoryStorage, Trie};
use algorsand::crypto::{self, hash_obj, mnemonic, CryptoHash, Hashable};
use algorsand::data::account::Participation;
use algorsand::data::account_manager::VerifAccountManager;
use algorsand::data::basics::{Address, Round};
use algorsand::data::bookkeeping::BlockHeader;
use algorsand::data::committee::sortition;
use algorsand::data::transactions::{SignedTx, Transaction};
use algorsand::protocol;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use super::gen;
use crate::core::*;

struct Item(Vec<u8>);
impl Hashable for Item {
    fn to_be_hashed(&self) -> (&'static str, Vec<u8>) {
        ("TE", self.0.clone())
    }
}

type Digest = Vec<u8>;

fn items(r: &mut R, n: usize) -> Vec<Item> {
    (0..n).map(|i| { let l = r.gen_range(0, 40); let mut v = bytes(r, l); v.extend_from_slice(&(i as u32).to_le_bytes()); Item(v) }).collect()
}

// ---- pieces of work, each a function of its seed only ---------------------------------------

fn array(r: &mut R) -> Digest {
    let n = *pick(r, &[1, 2, 3, 7, 33, 64, 100, 257]);
    let a = items(r, n);
    let t = Tree::from_array(&a).unwrap();
    let mut d = t.root().0.to_vec();
    let mut at: Vec<u64> = (0..r.gen_range(1, 6)).map(|_| r.gen_range(0, n as u64)).collect();
    at.sort();
    at.dedup();
    let proof = t.prove(&mut at).unwrap();
    for p in &proof {
        d.extend_from_slice(&p.0);
    }
    let els: std::collections::HashMap<u64, CryptoHash> = at.iter().map(|i| (*i, hash_obj(&a[*i as usize]))).collect();
    d.push(Tree::verify(&t.root(), els, &proof).is_ok() as u8);
    let other: std::collections::HashMap<u64, CryptoHash> = at.iter().map(|i| (*i, hash_obj(&Item(vec![1, 2])))).collect();
    d.push(Tree::verify(&t.root(), other, &proof).is_ok() as u8);
    d
}

fn trie(r: &mut R) -> Digest {
    let mut t = Trie::new(InMemoryStorage::default());
    let mut d = Vec::new();
    let pool: Vec<Vec<u8>> = (0..24).map(|_| { let mut v = bytes(r, 6); v[0] &= 3; v[1] &= 1; v }).collect();
    for i in 0..40 {
        let x = pick(r, &pool).clone();
        d.push(if r.gen_range(0, 3) == 0 { t.delete(&x).unwrap() } else { t.add(&x).unwrap() } as u8);
        if i % 8 == 7 {
            d.extend_from_slice(&t.root_hash().unwrap().0);
        }
    }
    d
}

fn batch(r: &mut R) -> Digest {
    let n = r.gen_range(1, 5);
    let mut b = crypto::batch_verifier::BatchVerifier::with_capacity(r.gen_range(0, 4));
    let bad = r.gen_range(0, 2 * n);
    for i in 0..n {
        let k = gen::keypair(r);
        let m = bytes(r, 20);
        let s = ed25519_dalek::Signer::sign(&k, &m);
        b.enque_sig(k.public, if i == bad { b"other" } else { &m }, s);
    }
    vec![b.verify().is_ok() as u8, b.num_sigs_enqued() as u8]
}

fn vrf(r: &mut R) -> Digest {
    let k = crypto::VrfKeypair::from_seed(arr32(r));
    let m = bytes(r, 30);
    let p = k.prove_bytes(&m).unwrap();
    let mut d = p.verif_bytes().to_vec();
    d.extend_from_slice(&k.public().verify_bytes(&p, &m).map(|o| o.0.to_vec()).unwrap_or_default());
    d.push(k.public().verify_bytes(&p, b"other").is_ok() as u8);
    d
}

fn lottery(r: &mut R) -> Digest {
    let (total, size) = (r.gen_range(1_000, 1_000_000u64), r.gen_range(1, 900) as f64);
    let mut d = Vec::new();
    for _ in 0..8 {
        d.extend_from_slice(&sortition::select(r.gen_range(0, 1_000), total, size, &CryptoHash(arr32(r))).to_le_bytes());
    }
    d
}

fn words(r: &mut R) -> Digest {
    let k = arr32(r);
    let w = mnemonic::key_to_mnemonic(k);
    let mut d = w.join(" ").into_bytes();
    d.extend_from_slice(&mnemonic::mnemonic_to_key(&w).unwrap());
    let a = Address(k).to_string();
    d.extend_from_slice(a.as_bytes());
    d.extend_from_slice(&a.parse::<Address>().unwrap().0);
    d
}

fn addresses(r: &mut R) -> Digest {
    let a = Address(arr32(r));
    let mut d = a.to_string().into_bytes();
    d.extend_from_slice(&std::str::from_utf8(&d).unwrap().parse::<Address>().unwrap().0);
    d.push(a.to_string().replace('A', "B").parse::<Address>().is_ok() as u8);
    d
}

fn hashes(r: &mut R) -> Digest {
    let n = r.gen_range(0, 90);
    let x = Item(bytes(r, n));
    let mut d = hash_obj(&x).0.to_vec();
    d.extend_from_slice(&crypto::hash(&x.0).0);
    d
}

fn payments(r: &mut R) -> Digest {
    let mut h = algorsand::data::transactions::Header::default();
    h.sender = Address(arr32(r));
    h.first_valid = Round(r.gen_range(0, 1000));
    h.last_valid = Round(h.first_valid.0 + r.gen_range(0, 1000));
    let f = algorsand::data::transactions::PaymentFields {
        receiver: Address(arr32(r)),
        amount: algorsand::data::basics::MicroAlgos(r.gen()),
        close_remainder_to: Default::default(),
    };
    let t = Transaction { header: h, fields: algorsand::data::transactions::TxFields::Payment(f) };
    let e = protocol::encode(&t);
    let mut d = t.id().0 .0.to_vec();
    d.extend_from_slice(&protocol::decode::<Transaction>(&e).map(|b| protocol::encode(&b)).unwrap_or_default());
    d.extend_from_slice(&e);
    d
}

fn transaction(r: &mut R) -> Digest {
    let mut d = Vec::new();
    for _ in 0..3 {
        let t = gen::tx(r);
        let e = protocol::encode(&t);
        let back: Transaction = protocol::decode(&e).unwrap();
        d.extend_from_slice(&protocol::encode(&back));
        d.extend_from_slice(&t.id().0 .0);
    }
    d
}

fn signing(r: &mut R) -> Digest {
    let t = gen::tx(r);
    let s = t.sign(&gen::keypair(r));
    let back: SignedTx = protocol::decode(&protocol::encode(&s)).unwrap();
    protocol::encode(&back)
}

fn header(r: &mut R) -> Digest {
    let h = gen::block_header(r);
    let e = protocol::encode(&h);
    let back: BlockHeader = protocol::decode(&e).unwrap();
    let mut d = protocol::encode(&back);
    d.extend_from_slice(&hash_obj(&h).0);
    d
}

fn protocols(r: &mut R) -> Digest {
    let mut d = Vec::new();
    for (_, v) in crate::refm::params::ALL.iter() {
        if let Some(p) = config::CONSENSUS.0.get(v) {
            d.extend_from_slice(&p.max_tx_life.to_le_bytes());
            d.extend_from_slice(&p.min_balance.to_le_bytes());
            d.extend_from_slice(&(p.approved_upgrades.len() as u64).to_le_bytes());
        } else {
            d.push(0);
        }
    }
    let _ = r;
    d
}

const WORK: &[(&str, fn(&mut R) -> Digest, u32)] = &[
    ("arrays", array, 4), ("tries", trie, 4), ("batches", batch, 1), ("vrf", vrf, 1), ("lotteries", lottery, 4), ("words", words, 4),
    ("addresses", addresses, 4), ("hashes", hashes, 4), ("payments", payments, 4),
    ("transactions", transaction, 4), ("signing", signing, 1), ("headers", header, 2), ("protocols", protocols, 1),
];

fn rng(seed: u64, i: u64) -> R {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&i.to_le_bytes());
    R::from_seed(s)
}

struct Log {
    counts: BTreeMap<String, u64>,
    bad: Vec<Value>,
}

impl Log {
    fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_owned()).or_insert(0) += n;
    }
    fn bad(&mut self, what: &str, v: Value) {
        if self.bad.len() < 10 {
            self.bad.push(json!([what, v]));
        }
    }
}

fn jitter(r: &mut R) {
    match r.gen_range(0, 12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(r.gen_range(1, 200))),
        _ => {}
    }
}

/// Every thread does every piece of work, in its own order; results equal those of one thread alone.
fn same_results(l: &mut Log, seed: u64, threads: usize, per_kind: u64, cold: bool) {
    let mut list: Vec<(usize, u64)> = Vec::new();
    for (k, w) in WORK.iter().enumerate() {
        for i in 0..(per_kind * w.2 as u64 + 3) / 4 {
            list.push((k, seed ^ (i << 8) ^ k as u64));
        }
    }
    let once = |x: &(usize, u64)| guard(|| (WORK[x.0].1)(&mut rng(x.1, 77)));
    let alone = |list: &[(usize, u64)]| -> Vec<Result<Digest, String>> { list.iter().map(once).collect() };
    // when cold, all threads meet the untouched global state first
    let mut want = if cold { vec![] } else { alone(&list) };
    let start = Barrier::new(threads);
    let got: Vec<Vec<(usize, Result<Digest, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (list, start, once) = (&list, &start, &once);
            s.spawn(move || {
                let mut r = rng(seed, 1000 + t as u64);
                let mut order: Vec<usize> = (0..list.len()).collect();
                order.shuffle(&mut r);
                start.wait();
                order.into_iter().map(|i| { jitter(&mut r); (i, once(&list[i])) }).collect()
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if cold {
        want = alone(&list);
    }
    for (t, g) in got.iter().enumerate() {
        for (i, x) in g {
            l.count(WORK[list[*i].0].0, 1);
            match (x, &want[*i]) {
                (Ok(a), Ok(b)) if a == b => {}
                (a, b) => l.bad("results differ between threads", json!({"work": WORK[list[*i].0].0, "seed": list[*i].1, "thread": t, "alone": format!("{:?}", b).chars().take(200).collect::<String>(), "got": format!("{:?}", a).chars().take(200).collect::<String>()})),
            }
        }
    }
}

/// One kind of work at a time, all threads at it over the same few inputs without pause.
fn hot(l: &mut Log, seed: u64, threads: usize, size: u64) {
    for (k, w) in WORK.iter().enumerate() {
        let pool: Vec<u64> = (0..2 + seed % 4).map(|i| (seed << 8) ^ (i << 4) ^ k as u64).collect();
        let want: Vec<_> = pool.iter().map(|x| guard(|| (w.1)(&mut rng(*x, 77)))).collect();
        let n = size * match w.0 { "lotteries" | "protocols" => 300, "addresses" | "hashes" => 1500, "payments" => 300, "words" => 40, "headers" | "transactions" => 20, "arrays" | "tries" => 10, _ => 2 };
        let wrong = AtomicU64::new(0);
        let start = Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (pool, want, wrong, start) = (&pool, &want, &wrong, &start);
                s.spawn(move || {
                    let mut r = rng(seed, 400 + t as u64);
                    start.wait();
                    let mut i = 0;
                    for _ in 0..n {
                        if r.gen_range(0, 3) > 0 {
                            i = r.gen_range(0, pool.len());
                        }
                        if guard(|| (w.1)(&mut rng(pool[i], 77))) != want[i] {
                            wrong.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        l.count("done over and over at once", n * threads as u64);
        if wrong.load(Ordering::Relaxed) != 0 {
            l.bad("results differ between threads", json!({"work": w.0, "seeds": pool, "wrong": wrong.load(Ordering::Relaxed), "of": n * threads as u64}));
        }
    }
}

/// One tree asked by many threads, within pools of several sizes.
fn shared_tree(l: &mut Log, seed: u64, threads: usize, n: usize) {
    let mut r = rng(seed, 2);
    let a = items(&mut r, n);
    let root = Tree::from_array(&a).unwrap().root();
    for size in &[1usize, 2, 3, 7] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*size).build().unwrap();
        let t = pool.install(|| Tree::from_array(&a).unwrap());
        l.count("trees built in pools", 1);
        if t.root() != root {
            l.bad("root depends on the pool", json!({"threads": size, "items": n}));
        }
        let fails = AtomicU64::new(0);
        std::thread::scope(|s| {
            for k in 0..threads {
                let (t, a, fails) = (&t, &a, &fails);
                s.spawn(move || {
                    let mut r = rng(seed, 50 + k as u64);
                    for _ in 0..6 {
                        let i = r.gen_range(0, n as u64);
                        let p = t.prove(&mut vec![i]).unwrap();
                        let mut els = std::collections::HashMap::new();
                        els.insert(i, hash_obj(&a[i as usize]));
                        if Tree::verify(&t.root(), els, &p).is_err() {
                            fails.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        l.count("proofs from a shared tree", 6 * threads as u64);
        if fails.load(Ordering::Relaxed) != 0 {
            l.bad("proof from a shared tree", json!({"items": n}));
        }
    }
}

/// Signers and copiers against a deleter, and signers sharing one untouched key.
fn shared_keys(l: &mut Log, seed: u64, threads: usize, steps: u64) {
    let per = 4;
    let keys = Arc::new(RwLock::new((crypto::OTSSecrets::generate(2, 6), (0u64, 0u64))));
    let done = AtomicBool::new(false);
    let (bad, signed, refused) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let msg = Item(vec![9]);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (keys, done, bad, signed, refused, msg) = (&keys, &done, &bad, &signed, &refused, &msg);
            s.spawn(move || {
                let mut r = rng(seed, 90 + k as u64);
                let mut n = 0;
                while !done.load(Ordering::Relaxed) || n < 2 {
                    n += 1;
                    let id = crypto::OTSIdentifier { batch: r.gen_range(2, 8), offset: r.gen_range(0, per) };
                    let g = keys.read().unwrap();
                    let can = (id.batch, id.offset) >= (g.1 .0, g.1 .1);
                    let ok = if r.gen() { g.0.sign(&id, msg).verify(&id, msg, &g.0.verifier) } else { g.0.snapshot().sign(&id, msg).verify(&id, msg, &g.0.verifier) };
                    drop(g);
                    if ok != can {
                        bad.fetch_add(1, Ordering::Relaxed);
                    }
                    if ok { &signed } else { &refused }.fetch_add(1, Ordering::Relaxed);
                }
            });
        }
        let mut r = rng(seed, 89);
        let mut at = (2u64, 0u64);
        for _ in 0..steps {
            at = if r.gen() && at.1 + 1 < per { (at.0, at.1 + 1) } else { (at.0 + 1, r.gen_range(0, per)) };
            if at.0 > 8 {
                break;
            }
            {
                let mut g = keys.write().unwrap();
                g.0.delete_before(crypto::OTSIdentifier { batch: at.0, offset: at.1 }, per);
                g.1 = at;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        done.store(true, Ordering::Relaxed);
    });
    l.count("signed while keys are deleted", signed.load(Ordering::Relaxed));
    l.count("refused while keys are deleted", refused.load(Ordering::Relaxed));
    if bad.load(Ordering::Relaxed) != 0 {
        l.bad("shared one-time keys", json!({"seed": seed}));
    }
    // no lock of ours around it
    let keys = crypto::OTSSecrets::generate(5, 3);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (keys, bad, msg) = (&keys, &bad, &msg);
            s.spawn(move || {
                let id = crypto::OTSIdentifier { batch: 5 + k as u64 % 3, offset: k as u64 };
                for _ in 0..2 {
                    if !keys.sign(&id, msg).verify(&id, msg, &keys.verifier) || keys.snapshot().verifier != keys.verifier {
                        bad.fetch_add(1, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    l.count("signed with a shared key", 2 * threads as u64);
    if bad.load(Ordering::Relaxed) != 0 {
        l.bad("unlocked one-time keys", json!({"seed": seed}));
    }
}

fn participation(r: &mut R) -> Participation {
    let first = r.gen_range(0, 20);
    Participation { parent: Address(arr32(r)), vrf: crypto::VrfKeypair::from_seed(arr32(r)), voting: crypto::OTSSecrets::generate(first / 5, 2),
        first_valid: Round(first), last_valid: Round(first + 5), key_dilution: 5 }
}

/// Readers of an account manager against one that adds to it.
fn shared_manager(l: &mut Log, seed: u64, threads: usize, steps: u64) {
    let m = RwLock::new((VerifAccountManager::default(), Vec::<(Address, u64, u64)>::new()));
    let done = AtomicBool::new(false);
    let (bad, asked) = (AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|s| {
        for k in 0..threads {
            let (m, done, bad, asked) = (&m, &done, &bad, &asked);
            s.spawn(move || {
                let mut r = rng(seed, 190 + k as u64);
                let mut n = 0;
                while !done.load(Ordering::Relaxed) || n < 5 {
                    n += 1;
                    let x = r.gen_range(0, 30);
                    let g = m.read().unwrap();
                    let mut have: Vec<Address> = g.0.keys(Round(x)).iter().map(|p| p.parent).collect();
                    let mut want: Vec<Address> = g.1.iter().filter(|p| p.1 <= x && x <= p.2).map(|p| p.0).collect();
                    have.sort_by_key(|a| a.0);
                    want.sort_by_key(|a| a.0);
                    if have != want || g.0.has_live_keys(Round(x), Round(x)) == want.is_empty() {
                        bad.fetch_add(1, Ordering::Relaxed);
                    }
                    asked.fetch_add(1, Ordering::Relaxed);
                    drop(g);
                    std::thread::yield_now();
                }
            });
        }
        let mut r = rng(seed, 189);
        for _ in 0..steps {
            let p = participation(&mut r);
            let mut g = m.write().unwrap();
            g.1.push((p.parent, p.first_valid.0, p.last_valid.0));
            if !g.0.add_participation(p) {
                bad.fetch_add(1, Ordering::Relaxed);
            }
            drop(g);
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        done.store(true, Ordering::Relaxed);
    });
    l.count("manager asked while keys are added", asked.load(Ordering::Relaxed));
    if bad.load(Ordering::Relaxed) != 0 {
        l.bad("shared account manager", json!({"seed": seed}));
    }
}

struct P(PathBuf);
impl AsRef<PathBuf> for P {
    fn as_ref(&self) -> &PathBuf {
        &self.0
    }
}

/// One thread sets the configuration directory while others ask for one nobody has set yet:
/// they see the default or what was set, and what was set stays.
fn first_root(l: &mut Log, seed: u64, threads: usize, rounds: u64) {
    config::set_global_config_file_root(&P(PathBuf::new()));
    let default = config::get_global_config_file_root().unwrap();
    let gate = Barrier::new(threads);
    let is_set = AtomicU64::new(0);
    let name = |k: u64| PathBuf::from(format!("/set-{}-{}", seed, k));
    let back: Vec<Vec<(&str, u64, PathBuf)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (gate, is_set, name, default) = (&gate, &is_set, &name, &default);
            s.spawn(move || {
                let mut odd = Vec::new();
                let mut r = rng(seed, 1000 + t as u64);
                for k in 1..=rounds {
                    if t == 0 {
                        config::set_global_config_file_root(&P(PathBuf::new()));
                    }
                    gate.wait();
                    if t == 0 {
                        for _ in 0..1u32 << r.gen_range(0, 12) {
                            std::hint::spin_loop();
                        }
                        let old = config::set_global_config_file_root(&P(name(k)));
                        is_set.store(k, Ordering::SeqCst);
                        if old != PathBuf::new() && old != *default {
                            odd.push(("replaced a directory nobody set", k, old));
                        }
                    } else {
                        for _ in 0..1 << r.gen_range(0, 8) {
                            std::hint::spin_loop();
                        }
                        let before = is_set.load(Ordering::SeqCst) == k;
                        let seen = config::get_global_config_file_root().unwrap();
                        if seen != name(k) && (before || seen != *default) {
                            odd.push(("asked for the directory", k, seen));
                        }
                    }
                    gate.wait();
                    let seen = config::get_global_config_file_root().unwrap();
                    if seen != name(k) {
                        odd.push(("the directory that was set is lost", k, seen));
                    }
                    gate.wait();
                }
                odd
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (what, k, seen) in back.into_iter().flatten() {
        l.bad(what, json!({"seed": seed, "round": k, "seen": seen.to_string_lossy()}));
    }
    l.count("directories set while first asked for", rounds);
}

/// Everyone replaces the configuration directory: each value is given back to exactly one.
fn exchanged_root(l: &mut Log, seed: u64, threads: usize, rounds: u64) {
    let name = |k: u64| format!("/root-{}-{}", seed, k);
    config::set_global_config_file_root(&P(name(0).into()));
    let start = Barrier::new(threads);
    let known: Vec<String> = (0..=threads as u64 * rounds).map(name).collect();
    let back: Vec<Vec<(String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads as u64).map(|t| {
            let (start, name) = (&start, &name);
            s.spawn(move || {
                start.wait();
                (0..rounds).map(|i| {
                    let old = config::set_global_config_file_root(&P(name(1 + t * rounds + i).into()));
                    let seen = config::get_global_config_file_root().unwrap();
                    (old.to_string_lossy().into_owned(), seen.to_string_lossy().into_owned())
                }).collect()
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all: Vec<String> = back.iter().flatten().map(|x| x.0.clone()).collect();
    all.push(config::get_global_config_file_root().unwrap().to_string_lossy().into_owned());
    all.sort();
    let mut want = known.clone();
    want.sort();
    if all != want {
        let lost: Vec<_> = want.iter().filter(|x| !all.contains(x)).take(3).collect();
        l.bad("configuration directory replaced but never given back", json!({"lost": lost}));
    }
    if back.iter().flatten().any(|x| !known.contains(&x.1)) {
        l.bad("configuration directory out of nothing", json!(seed));
    }
    l.count("configuration directories exchanged", threads as u64 * rounds);
}

/// Saving and restoring participation keys from several threads is a register: a restore gives the last save before it,
/// or one under way, whole.
fn shared_store(l: &mut Log, seed: u64, threads: usize, rounds: u64) {
    let clock = AtomicU64::new(0);
    let log: Mutex<Vec<(bool, u64, u64, String)>> = Mutex::new(vec![]);
    let ident = |p: &Participation| format!("{}/{}/{}/{}/{}", hex(&p.parent.0), hex(&p.vrf.public().verif_bytes()), hex(&p.voting.verifier.to_bytes()), p.first_valid.0, p.last_valid.0);
    {
        let p = participation(&mut rng(seed, 300));
        let a = clock.fetch_add(1, Ordering::SeqCst);
        p.persist().unwrap();
        log.lock().unwrap().push((true, a, clock.fetch_add(1, Ordering::SeqCst), ident(&p)));
    }
    let start = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (clock, log, ident, start) = (&clock, &log, &ident, &start);
            s.spawn(move || {
                let mut r = rng(seed, 301 + t as u64);
                let mine: Vec<Participation> = (0..3).map(|_| participation(&mut r)).collect();
                start.wait();
                for i in 0..rounds {
                    let write = t % 2 == 0 && i < mine.len() as u64;
                    let a = clock.fetch_add(1, Ordering::SeqCst);
                    let x = if write {
                        mine[i as usize].persist().map(|()| ident(&mine[i as usize])).map_err(|e| e.to_string())
                    } else {
                        Participation::restore().map(|p| ident(&p)).map_err(|e| e.to_string())
                    };
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    log.lock().unwrap().push((write, a, b, x.unwrap_or_else(|e| e)));
                }
            });
        }
    });
    let log = log.into_inner().unwrap();
    let mut overlapping = 0;
    for r in log.iter().filter(|x| !x.0) {
        let w = match log.iter().find(|x| x.0 && x.3 == r.3) {
            Some(w) => w,
            None => { l.bad("restored keys nobody saved", json!({"restored": r.3})); continue }
        };
        if log.iter().any(|x| x.0 && x.1 < r.2 && x.2 > r.1) {
            overlapping += 1;
        }
        if w.1 > r.2 || log.iter().any(|x| x.0 && w.2 < x.1 && x.2 < r.1) {
            l.bad("restored keys saved before the last save", json!({"restore": [r.1, r.2], "save": [w.1, w.2]}));
        }
        // no going back from one restore to a later one
        for q in log.iter().filter(|x| !x.0 && x.1 > r.2) {
            if let Some(v) = log.iter().find(|x| x.0 && x.3 == q.3) {
                if v.2 < w.1 {
                    l.bad("restores go back", json!({"first": [r.1, r.2], "then": [q.1, q.2]}));
                }
            }
        }
    }
    l.count("restores judged", log.iter().filter(|x| !x.0).count() as u64);
    l.count("restores during a save", overlapping);
    l.count("saves", log.iter().filter(|x| x.0).count() as u64);
}

/// `--sub c31 <seed> <kind> <size> <result file>` in a scratch directory.
pub fn sub(args: &[String]) -> i32 {
    install_panic_hook();
    let seed: u64 = args[0].parse().unwrap();
    let size: u64 = args[2].parse().unwrap();
    let mut l = Log { counts: BTreeMap::new(), bad: vec![] };
    let mut r = rng(seed, 1);
    let threads = r.gen_range(2, 9);
    match args[1].as_str() {
        "cold" => same_results(&mut l, seed, threads, 1, true),
        "mix" => {
            same_results(&mut l, seed, threads, size, false);
            shared_tree(&mut l, seed, threads, 3 + (seed as usize * 37) % 300);
            shared_keys(&mut l, seed, threads, 4 + size);
            shared_manager(&mut l, seed, threads, 4 + size);
            first_root(&mut l, seed, threads.min(4), 300);
            exchanged_root(&mut l, seed, threads, 100);
        }
        "hot" => {
            first_root(&mut l, seed, threads.min(4), 500);
            hot(&mut l, seed, threads.max(4), size)
        }
        "store" => shared_store(&mut l, seed, threads, 12),
        // single pieces, for the interpreter
        "one" => {
            let kinds = args[4].split(',').collect::<Vec<_>>();
            for (k, w) in WORK.iter().enumerate() {
                if kinds.contains(&w.0) {
                    for i in 0..size {
                        let a = (w.1)(&mut rng(seed + i, 77));
                        let b = std::thread::scope(|s| s.spawn(move || (w.1)(&mut rng(seed + i, 77))).join().unwrap());
                        if a != b {
                            l.bad("results differ between threads", json!({"work": k, "seed": seed + i}));
                        }
                        l.count(w.0, 2);
                    }
                }
            }
            if kinds.contains(&"root") {
                exchanged_root(&mut l, seed, 3, 2);
            }
            if kinds.contains(&"manager") {
                shared_manager(&mut l, seed, 2, 2);
            }
            if kinds.contains(&"keys") {
                shared_keys(&mut l, seed, 2, 2);
            }
            if kinds.contains(&"tree") {
                shared_tree(&mut l, seed, 2, 5);
            }
        }
        _ => return 2,
    }
    fs::write(&args[3], json!({"counts": l.counts, "bad": l.bad, "threads": threads}).to_string()).unwrap();
    0
}

// ---- runs of the builds ---------------------------------------------------------------------

struct Build {
    name: &'static str,
    exe: Vec<String>,
}

fn builds() -> Vec<Build> {
    let mut v = vec![Build { name: "plain", exe: vec![std::env::current_exe().unwrap().to_string_lossy().into_owned()] }];
    for (name, var) in &[("thread sanitizer", "VH_TSAN"), ("address sanitizer", "VH_ASAN"), ("interpreter", "VH_MIRI")] {
        if let Ok(x) = std::env::var(var) {
            v.push(Build { name, exe: x.split(' ').map(|s| s.to_owned()).collect() });
        }
    }
    v
}

/// What a sanitizer or the interpreter complained about, if it did.
fn report(err: &str) -> Option<String> {
    for mark in &["WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "error: Undefined Behavior", "FATAL: ThreadSanitizer", "runtime error:"] {
        if let Some(i) = err.find(mark) {
            // the kind, and the first place in the code under test
            let rest = &err[i..];
            let kind: String = rest.lines().next().unwrap_or("").split(" (pid").next().unwrap_or("").chars().take(120).collect();
            let at = rest.lines().find(|l| l.contains("algorsand::") || l.contains("/repo/src")).unwrap_or("").trim();
            let at = at.split(" (BuildId").next().unwrap_or("").split_whitespace().filter(|w| !w.starts_with("0x")).collect::<Vec<_>>().join(" ");
            return Some(format!("{} {}", kind, at));
        }
    }
    None
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    late: bool,
    err: String,
}

fn run(b: &Build, dir: &Path, args: &[String], scale: u64, limit: u64, rayon: u64) -> Ran {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let err = dir.join("stderr");
    let mut cmd = Command::new(&b.exe[0]);
    cmd.args(&b.exe[1..]).args(args).current_dir(dir);
    cmd.env("VH_SAN", "1").env("VH_SCALE", scale.to_string()).env("HOME", dir).env("RAYON_NUM_THREADS", rayon.to_string());
    cmd.env("TSAN_OPTIONS", format!("exitcode=66:halt_on_error=0:report_signal_unsafe=0:suppressions={}", verif_dir().join("harness/tsan.supp").display()));
    cmd.env("ASAN_OPTIONS", "exitcode=67:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1");
    cmd.stdin(std::process::Stdio::null()).stdout(fs::File::create(dir.join("stdout")).unwrap()).stderr(fs::File::create(&err).unwrap());
    cmd.process_group(0);
    // instrumented frames are several times as large
    unsafe {
        cmd.pre_exec(|| {
            let mut l = std::mem::zeroed::<libc::rlimit>();
            libc::getrlimit(libc::RLIMIT_STACK, &mut l);
            l.rlim_cur = l.rlim_max.min(512 << 20);
            libc::setrlimit(libc::RLIMIT_STACK, &l);
            Ok(())
        });
    }
    let mut kid = cmd.spawn().unwrap();
    let t = std::time::Instant::now();
    let mut late = false;
    let st = loop {
        if let Ok(Some(st)) = kid.try_wait() {
            break Some(st);
        }
        if t.elapsed().as_secs() > limit {
            late = true;
            unsafe { libc::kill(-(kid.id() as i32), libc::SIGKILL) };
            break kid.wait().ok();
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    Ran { code: st.and_then(|s| s.code()), signal: st.and_then(|s| s.signal()), late, err: String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).into_owned() }
}

pub fn c31(c: &mut Ctx) {
    c.rule = "a run of one build (plain, thread sanitizer, address sanitizer, interpreter) on one seeded workload: first use of all global state by several threads at once; the same work alone and by many threads; objects shared by many threads with a model; saves against restores; the workloads of the other checks".into();
    let bs = builds();
    let mut jobs: Vec<(usize, Vec<String>, String)> = Vec::new(); // build, arguments, kind
    let q = c.quick();
    let seed = c.seed * 100_000;
    for (i, b) in bs.iter().enumerate() {
        let (cold, mix, store, hot) = match (b.name, q) {
            ("plain", true) => (16, 12, 8, 40), ("plain", false) => (400, 300, 200, 200),
            ("thread sanitizer", true) => (10, 8, 0, 2), ("thread sanitizer", false) => (150, 150, 0, 30),
            ("address sanitizer", true) => (4, 4, 4, 0), ("address sanitizer", false) => (60, 60, 60, 10),
            _ => (0, 0, 0, 0),
        };
        let size = if b.name == "plain" { 6 } else { 3 };
        for (kind, n) in &[("cold", cold), ("mix", mix), ("store", store), ("hot", hot)] {
            for k in 0..*n {
                jobs.push((i, vec!["--sub".into(), "c31".into(), (seed + k).to_string(), kind.to_string(), size.to_string()], kind.to_string()));
            }
        }
        if b.name == "interpreter" {
            // no trees of arrays: the thread pool's own queues (crossbeam-epoch 0.9.5) copy uninitialized words
            let groups: &[(&str, u64, u64)] = if q {
                &[("tries", 1, 1), ("words,lotteries", 1, 1), ("transactions,headers,protocols,root", 1, 1), ("signing,batches", 1, 1)]
            } else {
                &[("words,lotteries", 6, 2), ("tries", 8, 2), ("transactions,headers,protocols,root", 8, 3), ("vrf", 3, 1), ("signing,batches", 3, 2), ("keys", 2, 1), ("manager", 2, 1)]
            };
            for (g, n, size) in groups {
                for k in 0..*n {
                    jobs.push((i, vec!["--sub".into(), "c31".into(), (seed + 50 * k).to_string(), "one".into(), size.to_string(), g.to_string()], "one".into()));
                }
            }
        }
        // the other checks' own workloads
        if b.name == "address sanitizer" || b.name == "thread sanitizer" {
            let ids: &[&str] = if b.name == "address sanitizer" {
                &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C28", "C30", "C32", "C33", "C34", "C36"]
            } else {
                &["C04", "C05", "C06", "C11", "C12", "C17", "C20", "C28"]
            };
            for id in ids {
                for k in 0..if q { 1 } else { 3 } {
                    jobs.push((i, vec!["--worker".into(), id.to_string(), k.to_string(), "8".into()], id.to_string()));
                }
            }
        }
    }
    // long ones first, then evenly over the shards
    jobs.sort_by_key(|j| if bs[j.0].name == "interpreter" { 0 } else if j.2.starts_with('C') { 1 } else { 2 });
    let here = std::env::current_dir().unwrap();
    for (n, (i, args, kind)) in jobs.iter().enumerate() {
        if n as u64 % c.shards != c.shard {
            continue;
        }
        if !c.in_time(150, 700) {
            c.count("runs left out", 1);
            continue;
        }
        let b = &bs[*i];
        c.about(&format!("{} {:?}", b.name, args));
        let dir = make_scratch(&here, "run");
        let result = dir.join("result.json");
        let mut a = args.clone();
        if kind.starts_with('C') {
            a.push(dir.to_string_lossy().into_owned());
        } else {
            a.insert(5, result.to_string_lossy().into_owned());
        }
        let rayon = *pick(&mut c.rng, &[1, 2, 4, 8]);
        let o = run(b, &dir, &a, if q { 40 } else { 4 }, if q { 300 } else { 600 }, if b.name == "interpreter" { 2 } else { rayon });
        let d = || json!({"build": b.name, "arguments": a, "rayon threads": rayon, "exit": o.code, "signal": o.signal, "stderr": o.err.chars().take(6000).collect::<String>()});
        let res: Value = fs::read_to_string(&result).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
        c.case(format!("{} {:?} {}", b.name, args, rayon).as_bytes(), true);
        c.count(&format!("runs: {}", b.name), 1);
        if kind.starts_with('C') && o.err.contains("stack-overflow on") {
            c.count("runs out of stack", 1);
        } else if let Some(r) = report(&o.err) {
            c.violation(&r, d());
        } else if o.late {
            if kind.starts_with('C') || b.name == "interpreter" {
                c.count("runs cut short", 1);
            } else {
                c.violation(&format!("{}: does not finish", kind), d());
            }
        } else if o.signal.is_some() && o.signal != Some(libc::SIGKILL) {
            c.violation(&format!("{}: died of a signal", b.name), d());
        } else if !kind.starts_with('C') {
            match res.get("bad").and_then(|b| b.as_array()) {
                Some(bad) => {
                    for x in bad {
                        c.violation(x[0].as_str().unwrap_or("?"), json!({"at": x[1], "run": d()}));
                    }
                    for (k, v) in res["counts"].as_object().unwrap() {
                        c.count(k, v.as_u64().unwrap_or(0));
                    }
                    c.state("thread counts", res["threads"].to_string().as_bytes());
                }
                None if o.err.contains("unsupported operation") => c.count("interpreter: unsupported", 1),
                None => c.violation(&format!("{} {}: no result", b.name, kind), d()),
            }
        } else {
            c.count(&format!("other workloads: {}", b.name), 1);
        }
        fs::remove_dir_all(&dir).unwrap();
    }
    c.sample(json!(bs.iter().map(|b| json!([b.name, b.exe])).collect::<Vec<_>>()));
    c.require("runs: plain", 20);
    c.require("runs: thread sanitizer", 10);
    c.require("runs: address sanitizer", 10);
    c.require("runs: interpreter", 1);
    c.require("arrays", 100);
    c.require("trees built in pools", 20);
    c.require("done over and over at once", 10_000);
    c.require("signed while keys are deleted", 50);
    c.require("refused while keys are deleted", 20);
    c.require("manager asked while keys are added", 100);
    c.require("configuration directories exchanged", 500);
    c.require("restores during a save", 10);
}
