//! C04/C05 Merkle array commitments, C06/C07/C08 Merkle trie.
use crate::core::*;
use crate::refm;
use algorsand::crypto::merklearray::Tree;
use algorsand::crypto::merkletrie::{InMemoryStorage, Node, NodeID, Storage, Trie, TrieError};
use algorsand::crypto::{hash_obj, CryptoHash, Hashable};
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
struct Item(Vec<u8>);
impl Hashable for Item {
    fn to_be_hashed(&self) -> (&'static str, Vec<u8>) {
        ("TE", self.0.clone())
    }
}

fn items(r: &mut R, n: usize) -> Vec<Item> {
    let dup = r.gen_range(0, 4) == 0;
    (0..n)
        .map(|i| {
            let l = r.gen_range(0, 12);
            if dup {
                Item(vec![r.gen_range(0, 3)])
            } else {
                let mut v = bytes(r, l);
                v.extend_from_slice(&(i as u32).to_le_bytes());
                Item(v)
            }
        })
        .collect()
}

fn leaf(x: &Item) -> [u8; 32] {
    refm::h256(&[b"TE", &x.0])
}

fn sizes(r: &mut R, quick: bool) -> usize {
    match r.gen_range(0, 6) {
        0 => r.gen_range(0, 9),
        1 => (1usize << r.gen_range(0, 9)) + r.gen_range(0, 3) - 1,
        2 => r.gen_range(0, 33),
        3 => r.gen_range(0, 130),
        4 => r.gen_range(0, if quick { 400 } else { 3000 }),
        _ => r.gen_range(0, 65),
    }
}

fn positions(r: &mut R, n: usize) -> Vec<u64> {
    if n == 0 {
        return vec![];
    }
    let k = match r.gen_range(0, 6) {
        0 => 1,
        1 => n,
        2 => 0,
        3 => 2,
        _ => r.gen_range(0, n.min(40) + 1),
    };
    if k == n {
        let mut v: Vec<u64> = (0..n as u64).collect();
        v.shuffle(r);
        return v;
    }
    match r.gen_range(0, 3) {
        0 => {
            let s = r.gen_range(0, n);
            (s..(s + k).min(n)).map(|x| x as u64).collect()
        }
        1 => (0..k).map(|_| (n - 1 - r.gen_range(0, n.min(4))) as u64).collect(),
        _ => (0..k).map(|_| r.gen_range(0, n) as u64).collect(),
    }
}

pub fn c04(c: &mut Ctx) {
    c.rule = "an array (0..3000 leaves, some up to 300 000, duplicates included) with a set of positions (single, range, all, random with repeats); non-trivial when at least one position is proved".into();
    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 3, 8]
        .iter()
        .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
        .collect();
    // every size in a range, every single position
    let max_ex = if c.quick() { 70 } else { 260 };
    let mut n = c.shard as usize;
    while n <= max_ex {
        let a = items(&mut c.rng, n);
        one_array(c, &a, &pools[n % 4], true);
        n += c.shards as usize;
    }
    // arrays large enough for any splitting of the work
    let big = c.n(24, 600);
    for i in 0..big {
        if !c.in_time(20, 250) {
            break;
        }
        let n = match c.rng.gen_range(0, 4) {
            0 => (1usize << c.rng.gen_range(11, if c.quick() { 16 } else { 19 })) + c.rng.gen_range(0, 5) - 2,
            1 => c.rng.gen_range(1000, 5000),
            _ => c.rng.gen_range(4000, if c.quick() { 50_000 } else { 300_000 }),
        };
        let a = items(&mut c.rng, n);
        one_array(c, &a, &pools[(i % 4) as usize], false);
        c.count("large arrays", 1);
    }
    let n = *pick(&mut c.rng, &[65_535usize, 65_537, 65_538, 66_001, 70_000, 131_075]);
    let a = items(&mut c.rng, n);
    one_array(c, &a, &pools[3], false);
    c.count("arrays of 2^16 elements and more", 1);
    let k = c.n(4000, 60_000);
    for i in 0..k {
        if !c.in_time(60, 500) {
            break;
        }
        let q = c.quick();
        let n = sizes(&mut c.rng, q);
        let a = items(&mut c.rng, n);
        one_array(c, &a, &pools[(i % 4) as usize], false);
    }
    c.require("proofs verified", 1000);
    c.require("distinct array sizes", 60);
}

fn one_array(c: &mut Ctx, a: &[Item], pool: &rayon::ThreadPool, all_single: bool) {
    c.about(&format!("array n={}", a.len()));
    let leaves: Vec<[u8; 32]> = a.iter().map(leaf).collect();
    let want = refm::array_root(&leaves);
    let tree = match c.no_panic("array-build", || json!(a.len()), || pool.install(|| Tree::from_array(a))) {
        Some(Ok(t)) => t,
        Some(Err(_)) => {
            c.violation("array-build-error", json!(a.len()));
            return;
        }
        None => return,
    };
    let root = tree.root();
    c.state("array sizes", &(a.len() as u64).to_le_bytes());
    c.check(root.0 == want, "root", || json!({"n": a.len(), "got": root.to_string(), "want": refm::base32(&want)}));
    // the same array on another schedule
    let again = pool.install(|| Tree::from_array(a)).map(|t| t.root());
    c.check(again.as_ref() == Ok(&root), "root-nondeterministic", || json!(a.len()));
    let mut sets: Vec<Vec<u64>> = Vec::new();
    if all_single {
        sets.extend((0..a.len() as u64).map(|x| vec![x]));
        sets.push((0..a.len() as u64).collect());
    }
    for _ in 0..4 {
        sets.push(positions(&mut c.rng, a.len()));
    }
    if a.len() > 1000 {
        // the last elements of a layer are where a split of it would show
        sets.push(vec![a.len() as u64 - 1]);
        sets.retain(|s| s.len() < 1000);
    }
    for set in sets {
        let proof = c.no_panic("prove", || json!({"n": a.len(), "pos": set}), || tree.prove(&mut set.clone()));
        let proof = match proof {
            Some(Ok(p)) => p,
            Some(Err(_)) => {
                c.violation("prove-refused", json!({"n": a.len(), "pos": set}));
                continue;
            }
            None => continue,
        };
        let elems: HashMap<u64, CryptoHash> = set.iter().map(|p| (*p, hash_obj(&a[*p as usize]))).collect();
        let v = c.no_panic("verify", || json!({"n": a.len(), "pos": set}), || Tree::verify(&root, elems.clone(), &proof));
        if let Some(v) = v {
            c.check(v.is_ok(), "valid-proof-rejected", || json!({"n": a.len(), "pos": set}));
            c.count("proofs verified", 1);
        }
        let mut key = (a.len() as u64).to_le_bytes().to_vec();
        key.extend(set.iter().flat_map(|x| x.to_le_bytes()));
        c.case(&key, !set.is_empty());
        c.sample(json!({"leaves": a.len(), "positions": set.iter().take(10).collect::<Vec<_>>(), "proof_len": proof.len()}));
    }
    // past the end
    for d in [0u64, 1, 7, 1 << 40, u64::MAX - a.len() as u64] {
        let p = a.len() as u64 + d;
        if let Some(r) = c.no_panic("prove-past-end", || json!(p), || tree.prove(&mut vec![p])) {
            c.check(r.is_err(), "prove-past-end", || json!({"n": a.len(), "pos": p}));
        }
        if !a.is_empty() {
            if let Some(r) = c.no_panic("prove-past-end", || json!(p), || tree.prove(&mut vec![0, p])) {
                c.check(r.is_err(), "prove-past-end", || json!({"n": a.len(), "pos": p}));
            }
        }
    }
}

pub fn c05(c: &mut Ctx) {
    c.rule = "a valid (root, elements, proof) triple with one or more hostile edits of element, position, proof or root; non-trivial when the edited claim is false of the array".into();
    let k = c.n(20_000, 400_000);
    for _ in 0..k {
        if !c.in_time(60, 500) {
            break;
        }
        let n = match c.rng.gen_range(0, 60) {
            0 => c.rng.gen_range(140, 6000),
            _ => 1 + sizes(&mut c.rng, true) % 140,
        };
        let a = items(&mut c.rng, n);
        let tree = Tree::from_array(&a).unwrap();
        let root = tree.root();
        let hashes: Vec<CryptoHash> = a.iter().map(hash_obj).collect();
        let mut set = positions(&mut c.rng, n);
        set.truncate(30);
        let proof = match guard(|| tree.prove(&mut set.clone())) {
            Ok(Ok(p)) => p,
            _ => {
                c.violation("prove", json!({"n": n, "pos": set}));
                continue;
            }
        };
        for _ in 0..12 {
            let mut elems: HashMap<u64, CryptoHash> = set.iter().map(|p| (*p, hashes[*p as usize].clone())).collect();
            let mut pr = proof.clone();
            let mut rt = root.clone();
            let edits = if c.rng.gen_range(0, 4) == 0 { 2 } else { 1 };
            let mut kinds = Vec::new();
            for _ in 0..edits {
                let keys: Vec<u64> = {
                    let mut k: Vec<u64> = elems.keys().copied().collect();
                    k.sort();
                    k
                };
                match c.rng.gen_range(0, 16) {
                    0 if !keys.is_empty() => {
                        let p = *pick(&mut c.rng, &keys);
                        elems.get_mut(&p).unwrap().0[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
                        kinds.push("flip-element-bit")
                    }
                    1 if !keys.is_empty() => {
                        let p = *pick(&mut c.rng, &keys);
                        let q = c.rng.gen_range(0, n);
                        elems.insert(p, hashes[q].clone());
                        kinds.push("element-of-other-position")
                    }
                    2 if !keys.is_empty() => {
                        let p = *pick(&mut c.rng, &keys);
                        let h = elems.remove(&p).unwrap();
                        let q = match c.rng.gen_range(0, 5) {
                            0 => p ^ 1,
                            1 => p.wrapping_add(n.next_power_of_two() as u64),
                            2 => p.wrapping_add(1 << c.rng.gen_range(0, 62)),
                            3 => p.wrapping_mul(2),
                            _ => c.rng.gen_range(0, n as u64 + 3),
                        };
                        elems.insert(q, h);
                        kinds.push("move-position")
                    }
                    3 if !pr.is_empty() => {
                        let i = c.rng.gen_range(0, pr.len());
                        pr[i].0[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
                        kinds.push("flip-hint-bit")
                    }
                    4 if !pr.is_empty() => {
                        pr.pop();
                        kinds.push("drop-last-hint")
                    }
                    5 if !pr.is_empty() => {
                        pr.remove(0);
                        kinds.push("drop-first-hint")
                    }
                    6 => {
                        let h = match c.rng.gen_range(0, 3) {
                            0 => CryptoHash::default(),
                            1 => CryptoHash(arr32(&mut c.rng)),
                            _ => root.clone(),
                        };
                        pr.push(h);
                        kinds.push("append-hint")
                    }
                    7 if pr.len() > 1 => {
                        let i = c.rng.gen_range(0, pr.len());
                        let j = c.rng.gen_range(0, pr.len());
                        pr.swap(i, j);
                        kinds.push("swap-hints")
                    }
                    8 => {
                        pr.clear();
                        kinds.push("empty-proof")
                    }
                    9 => {
                        rt = CryptoHash(arr32_biased(&mut c.rng));
                        kinds.push("other-root")
                    }
                    10 => {
                        let p = c.rng.gen_range(0, n as u64 + 2);
                        let q = c.rng.gen_range(0, n);
                        elems.insert(p, hashes[q].clone());
                        kinds.push("extra-element")
                    }
                    11 if !keys.is_empty() => {
                        let p = *pick(&mut c.rng, &keys);
                        elems.remove(&p);
                        kinds.push("drop-element")
                    }
                    12 if keys.len() > 1 => {
                        let p = *pick(&mut c.rng, &keys);
                        let q = *pick(&mut c.rng, &keys);
                        let (x, y) = (elems[&p].clone(), elems[&q].clone());
                        elems.insert(p, y);
                        elems.insert(q, x);
                        kinds.push("exchange-elements")
                    }
                    13 => {
                        // a proof longer than any tree can be
                        let m = c.rng.gen_range(60, 200);
                        pr = (0..m).map(|_| CryptoHash(arr32(&mut c.rng))).collect();
                        kinds.push("overlong-proof")
                    }
                    14 => {
                        elems.insert(u64::MAX - c.rng.gen_range(0, 2), CryptoHash(arr32(&mut c.rng)));
                        kinds.push("huge-position")
                    }
                    15 if !keys.is_empty() => {
                        // claim an element with a different value that hashes differently
                        let p = *pick(&mut c.rng, &keys);
                        let h = hash_obj(&Item(b"not in the array at all".to_vec()));
                        elems.insert(p, h);
                        kinds.push("foreign-element")
                    }
                    _ => {}
                }
            }
            if kinds.is_empty() {
                continue;
            }
            let false_claim = rt == root && elems.iter().any(|(p, h)| hashes.get(*p as usize) != Some(h));
            // an element claim against a root that is not the array's root
            let foreign_root = rt != root && !elems.is_empty();
            let detail = json!({"n": n, "positions": set, "edits": kinds});
            let r = c.no_panic("verify-hostile", || detail.clone(), || Tree::verify(&rt, elems.clone(), &pr));
            if let Some(r) = r {
                if false_claim || foreign_root {
                    c.check(r.is_err(), "forged-proof-accepted", || detail.clone());
                    c.count("false claims rejected", r.is_err() as u64);
                } else if elems.is_empty() && !pr.is_empty() {
                    c.check(r.is_err(), "nonempty-proof-of-nothing", || detail.clone());
                } else if rt == root && pr != proof {
                    // the claim is true, but the proof was altered and the claimed set is unchanged
                    let same = elems.len() == set.iter().collect::<HashSet<_>>().len()
                        && set.iter().all(|p| elems.contains_key(p));
                    if same && !elems.is_empty() {
                        c.check(r.is_err(), "altered-proof-accepted", || detail.clone());
                        c.count("altered proofs rejected", r.is_err() as u64);
                    }
                }
            }
            for k in &kinds {
                c.state("edit kinds", k.as_bytes());
            }
            let mut key = fnv(&serde_json::to_vec(&detail).unwrap()).to_le_bytes().to_vec();
            key.extend(pr.iter().flat_map(|h| h.0[..4].to_vec()));
            c.case(&key, false_claim || foreign_root || pr != proof);
            c.sample(detail);
        }
    }
    c.require("false claims rejected", 1000);
    c.require("altered proofs rejected", 200);
}

// ---------------------------------------------------------------- trie

/// Storage that shadows the real in-memory store and reports what the trie did with it.
#[derive(Default)]
struct Shadow {
    live: BTreeMap<NodeID, Vec<u8>>,
    stores: u64,
    loads: u64,
    deletes: u64,
    ops: u64,
    fail_at: Option<u64>,
    failed: u64,
    missing_loads: Vec<NodeID>,
    deleted_missing: Vec<NodeID>,
}

struct Mon(Rc<RefCell<Shadow>>);

impl Storage for Mon {
    fn store_node(&mut self, id: NodeID, content: &[u8]) -> Result<(), std::io::Error> {
        let mut s = self.0.borrow_mut();
        s.ops += 1;
        if s.fail_at == Some(s.ops) {
            s.failed += 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected store failure"));
        }
        if content.is_empty() {
            s.deletes += 1;
            if s.live.remove(&id).is_none() {
                s.deleted_missing.push(id);
            }
        } else {
            s.stores += 1;
            s.live.insert(id, content.to_vec());
        }
        Ok(())
    }
    fn load_node(&mut self, id: NodeID) -> Result<Option<Vec<u8>>, std::io::Error> {
        let mut s = self.0.borrow_mut();
        s.ops += 1;
        s.loads += 1;
        if s.fail_at == Some(s.ops) {
            s.failed += 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected load failure"));
        }
        let r = s.live.get(&id).cloned();
        if r.is_none() {
            s.missing_loads.push(id);
        }
        Ok(r)
    }
    fn current_storage_size(&self) -> usize {
        self.0.borrow().live.values().map(|v| v.len()).sum()
    }
}

struct Universe {
    len: usize,
    elems: Vec<Vec<u8>>,
}

/// Elements of one length with deliberately long shared prefixes.
fn universe(r: &mut R, max: usize) -> Universe {
    let len = *pick(r, &[1usize, 2, 3, 4, 8, 32, 32, 32, 32, 33, 64, 200, 255, 256, 257, 320]);
    let alpha: Vec<u8> = match r.gen_range(0, 4) {
        0 => vec![0, 1],
        1 => vec![0, 255],
        2 => (0..4).map(|_| r.gen()).collect(),
        _ => (0..=255).collect(),
    };
    let n = r.gen_range(1, max + 1);
    let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut all: Vec<Vec<u8>> = Vec::new();
    if max >= 300 && r.gen_range(0, 3) == 0 {
        // a node with every child there can be
        let base: Vec<u8> = (0..len).map(|_| *pick(r, &alpha)).collect();
        let at = r.gen_range(0, len);
        for b in 0..=255u8 {
            let mut e = base.clone();
            e[at] = b;
            if set.insert(e.clone()) {
                all.push(e);
            }
        }
        all.shuffle(r);
    }
    for _ in 0..n * 2 {
        let e: Vec<u8> = if !all.is_empty() && r.gen_range(0, 3) > 0 {
            // share a prefix with an existing element
            let b = pick(r, &all).clone();
            let k = match r.gen_range(0, 3) {
                0 => len - 1,
                1 => r.gen_range(0, len),
                _ => r.gen_range(0, len.min(4)),
            };
            let mut e = b;
            for x in e[k..].iter_mut() {
                *x = *pick(r, &alpha);
            }
            e
        } else {
            (0..len).map(|_| *pick(r, &alpha)).collect()
        };
        if set.insert(e.clone()) {
            all.push(e);
        }
        if all.len() >= n {
            break;
        }
    }
    Universe { len, elems: all }
}

enum TOp {
    Add(Vec<u8>),
    Del(Vec<u8>),
    Root,
}

fn trie_op(r: &mut R, u: &Universe, present: &BTreeSet<Vec<u8>>, bias_add: u32) -> TOp {
    match r.gen_range(0, 20) {
        0 => TOp::Root,
        1 => {
            // an element of the wrong length
            let l = *pick(r, &[0usize, 1, 2, u.len.saturating_sub(1), u.len + 1, u.len * 2, u.len + 256, u.len.saturating_sub(256), u.len + 65536, 31, 32, 33]);
            let mut e = pick(r, &u.elems).clone();
            e.resize(l, 0);
            if r.gen() {
                TOp::Add(e)
            } else {
                TOp::Del(e)
            }
        }
        _ => {
            if r.gen_range(0, 100) < bias_add {
                TOp::Add(pick(r, &u.elems).clone())
            } else if !present.is_empty() && r.gen_range(0, 4) > 0 {
                let v: Vec<&Vec<u8>> = present.iter().collect();
                TOp::Del((*pick(r, &v)).clone())
            } else {
                TOp::Del(pick(r, &u.elems).clone())
            }
        }
    }
}

fn show(o: &TOp) -> String {
    match o {
        TOp::Add(e) => format!("add {}", hex(e)),
        TOp::Del(e) => format!("del {}", hex(e)),
        TOp::Root => "root".into(),
    }
}

/// Runs one history against the set model. Returns false at the first violation.
fn trie_history(c: &mut Ctx, trie: &mut Trie, u: &Universe, steps: usize, shadow: Option<&Rc<RefCell<Shadow>>>, structural: bool) -> bool {
    let mut model: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut log: Vec<String> = Vec::new();
    let mut bias = 70;
    for step in 0..steps {
        if step % 25 == 0 {
            bias = *pick(&mut c.rng, &[90, 70, 50, 30, 10]);
        }
        let op = trie_op(&mut c.rng, u, &model, bias);
        log.push(show(&op));
        let tail = || json!({"len": u.len, "ops": log.iter().rev().take(60).rev().collect::<Vec<_>>(), "steps": log.len()});
        match &op {
            TOp::Add(e) | TOp::Del(e) => {
                let is_add = matches!(op, TOp::Add(_));
                let name = if is_add { "trie-add" } else { "trie-delete" };
                let wrong = !model.is_empty() && e.len() != model.iter().next().unwrap().len();
                let r = match c.no_panic(name, tail, || if is_add { trie.add(e) } else { trie.delete(e) }) {
                    Some(r) => r,
                    None => return false,
                };
                if wrong {
                    let ok = matches!(r, Err(TrieError::ElementLengthMismatch));
                    c.count("wrong-length operations refused", ok as u64);
                    if !c.check(ok, &format!("{}-length-mismatch", name), tail) {
                        return false;
                    }
                } else {
                    let want = if is_add { model.insert(e.clone()) } else { model.remove(e) };
                    c.count(if is_add { "adds" } else { "deletes" }, 1);
                    match r {
                        Ok(b) => {
                            if !c.check(b == want, &format!("{}-result", name), tail) {
                                return false;
                            }
                        }
                        Err(err) => {
                            c.violation(&format!("{}-error", name), json!({"err": err.to_string(), "h": tail()}));
                            return false;
                        }
                    }
                }
            }
            TOp::Root => {
                let set: Vec<Vec<u8>> = model.iter().cloned().collect();
                let want = refm::trie_root(&set);
                match c.no_panic("trie-root", tail, || trie.root_hash()) {
                    Some(Ok(h)) => {
                        c.count("roots compared", 1);
                        c.state("root values", &h.0);
                        if !c.check(h.0 == want, "root-not-function-of-set", tail) {
                            return false;
                        }
                    }
                    Some(Err(e)) => {
                        c.violation("trie-root-error", json!({"err": e.to_string(), "h": tail()}));
                        return false;
                    }
                    None => return false,
                }
            }
        }
        if let (Some(sh), true) = (shadow, structural) {
            if !check_storage(c, trie, &model, sh, &tail) {
                return false;
            }
        }
    }
    // final root, then drain in random order
    let mut left: Vec<Vec<u8>> = model.iter().cloned().collect();
    match guard(|| trie.root_hash()) {
        Ok(Ok(h)) => {
            c.check(h.0 == refm::trie_root(&left), "root-not-function-of-set", || json!(log.len()));
        }
        e => {
            c.violation("trie-root-error", json!(format!("{:?}", e.map(|x| x.map(|h| h.to_string()).map_err(|e| e.to_string())))));
            return false;
        }
    }
    left.shuffle(&mut c.rng);
    while let Some(e) = left.pop() {
        match guard(|| trie.delete(&e)) {
            Ok(Ok(true)) => {}
            x => {
                c.violation("drain", json!({"elem": hex(&e), "got": format!("{:?}", x.map(|y| y.map_err(|e| e.to_string())))}));
                return false;
            }
        }
        model.remove(&e);
        if c.rng.gen_range(0, 8) == 0 {
            let set: Vec<Vec<u8>> = model.iter().cloned().collect();
            let h = guard(|| trie.root_hash().map(|h| h.0).map_err(|e| e.to_string()));
            if !c.check(h == Ok(Ok(refm::trie_root(&set))), "root-after-delete", || json!({"left": set.len()})) {
                return false;
            }
        }
        if let (Some(sh), true) = (shadow, structural) {
            if !check_storage(c, trie, &model, sh, &|| json!("drain")) {
                return false;
            }
        }
    }
    c.check(trie.root.is_none() && guard(|| trie.root_hash().unwrap().is_zero()) == Ok(true), "empty-root", || json!(log.len()));
    true
}

fn check_storage(c: &mut Ctx, trie: &Trie, model: &BTreeSet<Vec<u8>>, sh: &Rc<RefCell<Shadow>>, tail: &dyn Fn() -> serde_json::Value) -> bool {
    let s = sh.borrow();
    let mut ok = c.check(s.missing_loads.is_empty(), "load-of-absent-node", || json!({"ids": s.missing_loads, "h": tail()}));
    // every node reachable from the root is stored, decodes, and is reached once
    let mut seen: HashSet<NodeID> = HashSet::new();
    let mut elems: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut stack: Vec<(NodeID, Vec<u8>)> = trie.root.iter().map(|r| (*r, Vec::new())).collect();
    while let Some((id, path)) = stack.pop() {
        if !seen.insert(id) {
            c.violation("node-shared", json!({"id": id, "h": tail()}));
            return false;
        }
        let n = match s.live.get(&id).and_then(|b| guard(|| Node::deserialize(b)).ok().flatten()) {
            Some(n) => n,
            None => {
                c.violation("node-missing-or-undecodable", json!({"id": id, "h": tail()}));
                return false;
            }
        };
        match n.children {
            None => {
                let mut e = path.clone();
                e.extend_from_slice(&n.hash);
                elems.insert(e);
            }
            Some(ch) => {
                for (i, x) in ch.iter().enumerate() {
                    if let Some(x) = x {
                        let mut p = path.clone();
                        p.push(i as u8);
                        stack.push((*x, p));
                    }
                }
            }
        }
    }
    let set: Vec<Vec<u8>> = model.iter().cloned().collect();
    ok &= c.check(elems == *model, "stored-elements-differ", || json!({"stored": elems.len(), "model": model.len(), "h": tail()}));
    ok &= c.check(seen.len() == s.live.len(), "leaked-nodes", || json!({"reachable": seen.len(), "stored": s.live.len(), "h": tail()}));
    ok &= c.check(seen.len() == refm::trie_nodes(&set), "node-count", || json!({"reachable": seen.len(), "want": refm::trie_nodes(&set), "h": tail()}));
    c.count("storage states checked", 1);
    c.state("storage node counts", &(seen.len() as u64).to_le_bytes());
    ok
}

pub fn c06(c: &mut Ctx) {
    c.rule = "a history of add/delete/root operations over a universe of equal-length elements with long shared prefixes (wrong-length operations injected); non-trivial when at least two elements coexist".into();
    // one large set: a root at several sizes on the way up and down
    {
        let u = universe(&mut c.rng, 300);
        let len = u.len.max(4);
        let prefix = bytes(&mut c.rng, len);
        let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut t = Trie::new(InMemoryStorage::default());
        let size = c.rng.gen_range(2000, 5000);
        c.about("large trie");
        let mut bad = 0;
        while set.len() < size {
            let mut e = bytes(&mut c.rng, len);
            let k = c.rng.gen_range(0, 3).min(len - 2);
            e[..k].copy_from_slice(&prefix[..k]);
            let new = set.insert(e.clone());
            bad += !matches!(guard(|| t.add(&e)), Ok(Ok(b)) if b == new) as u32;
        }
        let mut order: Vec<Vec<u8>> = set.iter().cloned().collect();
        order.shuffle(&mut c.rng);
        for stop in [size, size / 2, 300, 257, 256, 255, 2, 1] {
            while set.len() > stop {
                let e = order.pop().unwrap();
                set.remove(&e);
                bad += !matches!(guard(|| t.delete(&e)), Ok(Ok(true))) as u32;
            }
            let all: Vec<Vec<u8>> = set.iter().cloned().collect();
            let h = guard(|| t.root_hash().map(|h| h.0).map_err(|e| e.to_string()));
            c.check(h == Ok(Ok(refm::trie_root(&all))), "root of a large set", || json!({"len": len, "size": stop}));
            c.count("roots of large sets", 1);
        }
        c.check(bad == 0, "answers of a large trie", || json!({"len": len, "size": size, "wrong": bad}));
    }
    let n = c.n(3_000, 60_000);
    for i in 0..n {
        if !c.in_time(70, 600) {
            break;
        }
        let max = match i % 10 {
            0 => 300,
            1..=4 => 6,
            _ => 40,
        };
        let u = universe(&mut c.rng, max);
        let steps = c.rng.gen_range(5, 60 + max * 2);
        c.about(&format!("trie-history len={} universe={}", u.len, u.elems.len()));
        let sled_backend = i % 40 == 7;
        let mut trie = if sled_backend {
            let db = sled::Config::new().temporary(true).open().unwrap();
            let t = db.open_tree("trie").unwrap();
            c.count("sled-backed histories", 1);
            Trie::new(t)
        } else {
            Trie::new(InMemoryStorage::default())
        };
        trie_history(c, &mut trie, &u, steps, None, false);
        let key = c.rng.gen::<u64>();
        c.case(&key.to_le_bytes(), u.elems.len() > 1);
        c.sample(json!({"element_len": u.len, "universe": u.elems.len(), "steps": steps}));

        // the same final set reached along two different histories gives one root
        let k = c.rng.gen_range(1, u.elems.len() + 1);
        let target: Vec<Vec<u8>> = u.elems[..k].to_vec();
        let mut roots = Vec::new();
        for _ in 0..2 {
            let mut t = Trie::new(InMemoryStorage::default());
            let mut order: Vec<Vec<u8>> = u.elems.clone();
            order.shuffle(&mut c.rng);
            for e in &order {
                let _ = guard(|| t.add(e));
                if c.rng.gen_range(0, 6) == 0 {
                    let _ = guard(|| t.root_hash());
                }
            }
            let mut extra: Vec<Vec<u8>> = u.elems[k..].to_vec();
            extra.shuffle(&mut c.rng);
            for e in &extra {
                let _ = guard(|| t.delete(e));
            }
            roots.push(guard(|| t.root_hash().map(|h| h.0).map_err(|e| e.to_string())));
        }
        let mut st = target.clone();
        st.sort();
        c.check(roots[0] == roots[1] && roots[0] == Ok(Ok(refm::trie_root(&st))), "history-dependent-root", || json!({"set": st.iter().map(|e| hex(e)).collect::<Vec<_>>()}));
    }
    c.require("roots compared", 500);
    c.require("wrong-length operations refused", 100);
    c.require("sled-backed histories", 1);
    c.require("roots of large sets", 8);
}

pub fn c07(c: &mut Ctx) {
    c.rule = "a trie history over a monitored storage with the full node graph checked after every operation, or the same history with one storage access failing; non-trivial when a node was stored".into();
    let n = c.n(600, 12_000);
    for i in 0..n {
        if !c.in_time(40, 300) {
            break;
        }
        let max = if i % 6 == 0 { 60 } else { 10 };
        let u = universe(&mut c.rng, max);
        let steps = c.rng.gen_range(5, 80);
        c.about(&format!("trie-storage len={} universe={}", u.len, u.elems.len()));
        let sh = Rc::new(RefCell::new(Shadow::default()));
        let mut trie = Trie::new(Mon(sh.clone()));
        let ok = trie_history(c, &mut trie, &u, steps, Some(&sh), true);
        if ok {
            let s = sh.borrow();
            c.check(s.live.is_empty(), "leaked-nodes-when-empty", || json!(s.live.len()));
            c.check(trie.cache.storage.current_storage_size() == 0, "size-when-empty", || json!(null));
            c.count("stores", s.stores);
            c.count("loads", s.loads);
            c.count("node deletions", s.deletes);
        }
        let key = c.rng.gen::<u64>();
        c.case(&key.to_le_bytes(), sh.borrow().stores > 0);
    }
    // tries that live long: identifiers of nodes grow without end
    for i in 0..c.n(4, 16) {
        if !c.in_time(42, 320) {
            break;
        }
        let u = universe(&mut c.rng, 12);
        let steps = 40_000 << c.rng.gen_range(0, 2);
        c.about(&format!("long-lived trie {} len={} universe={} steps={}", i, u.len, u.elems.len(), steps));
        let sh = Rc::new(RefCell::new(Shadow::default()));
        let mut trie = Trie::new(Mon(sh.clone()));
        let mut model: BTreeSet<Vec<u8>> = BTreeSet::new();
        for step in 0..steps {
            let e = pick(&mut c.rng, &u.elems).clone();
            let add = c.rng.gen();
            let at = || json!({"operations": step, "add": add, "element": hex(&e), "set": model.iter().map(|x| hex(x)).collect::<Vec<_>>()});
            let r = c.no_panic("long-lived-trie", at, || if add { trie.add(&e) } else { trie.delete(&e) }.map_err(|e| e.to_string()));
            let r = match r { Some(r) => r, None => break };
            let want = if add { !model.contains(&e) } else { model.contains(&e) };
            if !c.check(r == Ok(want), "long-lived-trie-result", at) {
                break;
            }
            if add { model.insert(e); } else { model.remove(&e); }
            c.count("operations on long-lived tries", 1);
            if step % 256 == 0 || step + 20 > steps {
                let at = || json!({"operations": step, "set": model.iter().map(|x| hex(x)).collect::<Vec<_>>()});
                let set: Vec<Vec<u8>> = model.iter().cloned().collect();
                let h = c.no_panic("long-lived-trie-root", at, || trie.root_hash().map(|h| h.0).map_err(|e| e.to_string()));
                if !c.check(h == Some(Ok(refm::trie_root(&set))), "long-lived-trie-root", at) || !check_storage(c, &mut trie, &model, &sh, &at) {
                    break;
                }
            }
        }
        c.case(&c.rng.clone().gen::<u64>().to_le_bytes(), true);
    }
    // the backends themselves, against a plain map
    for i in 0..c.n(60, 600) {
        if !c.in_time(42, 320) {
            break;
        }
        let sled_backend = i % 3 == 0;
        let mut st: Box<dyn Storage> = if sled_backend {
            Box::new(sled::Config::new().temporary(true).open().unwrap().open_tree("nodes").unwrap())
        } else {
            Box::new(InMemoryStorage::default())
        };
        let mut model: HashMap<NodeID, Vec<u8>> = HashMap::new();
        let base = u64_biased(&mut c.rng);
        let mut ids: Vec<NodeID> = (0..64).step_by(c.rng.gen_range(3, 9)).map(|b| base ^ (1 << b)).collect();
        ids.extend([base, base.swap_bytes(), 0, u64::MAX, base & 0xffff_ffff, base & 0xff].iter());
        let mut hist = Vec::new();
        for _ in 0..150 {
            let id = *pick(&mut c.rng, &ids);
            let n = *pick(&mut c.rng, &[0usize, 0, 1, 2, 35, 300, 3000]);
            let v = bytes(&mut c.rng, n);
            hist.push((id, n));
            c.about(&format!("storage backend {:?}", hist.last()));
            let d = || json!({"sled": sled_backend, "stored (id, length)": hist});
            let r = c.no_panic("storage-backend", d, || st.store_node(id, &v).is_ok());
            c.check(r == Some(true), "store-refused", d);
            if v.is_empty() { model.remove(&id); } else { model.insert(id, v); }
            let other = *pick(&mut c.rng, &ids);
            for x in [id, other] {
                let g = c.no_panic("storage-backend", d, || st.load_node(x).map_err(|e| e.to_string()));
                c.check(g == Some(Ok(model.get(&x).cloned())), "loaded-other-than-stored", d);
                c.count("nodes loaded from a backend", 1);
            }
        }
        for x in &ids {
            let g = guard(|| st.load_node(*x).map_err(|e| e.to_string()));
            c.check(g == Ok(Ok(model.get(x).cloned())), "loaded-other-than-stored", || json!({"sled": sled_backend, "id": x, "stored (id, length)": hist}));
        }
        c.case(format!("{:?}", hist).as_bytes(), true);
    }
    c.require("nodes loaded from a backend", 5000);
    // fault enumeration: every storage access of a history fails once
    let n = c.n(60, 1200);
    for _ in 0..n {
        if !c.in_time(75, 600) {
            break;
        }
        let u = universe(&mut c.rng, 8);
        let mut ops: Vec<TOp> = Vec::new();
        let mut model = BTreeSet::new();
        for _ in 0..c.rng.gen_range(3, 25) {
            let o = trie_op(&mut c.rng, &u, &model, 65);
            match &o {
                TOp::Add(e) if e.len() == u.len => {
                    model.insert(e.clone());
                }
                TOp::Del(e) if e.len() == u.len => {
                    model.remove(e);
                }
                TOp::Root => {}
                _ => continue,
            }
            ops.push(o);
        }
        let mut k = 1;
        loop {
            let sh = Rc::new(RefCell::new(Shadow { fail_at: Some(k), ..Default::default() }));
            let mut trie = Trie::new(Mon(sh.clone()));
            let mut hit = false;
            for (i, o) in ops.iter().enumerate() {
                let before = sh.borrow().failed;
                c.about("trie-fault");
                let d = || json!({"fail_at_access": k, "op_index": i, "ops": ops.iter().take(i + 1).map(show).collect::<Vec<_>>()});
                let r = match o {
                    TOp::Add(e) => c.no_panic("storage-fault", d, || trie.add(e).map(|_| ())),
                    TOp::Del(e) => c.no_panic("storage-fault", d, || trie.delete(e).map(|_| ())),
                    TOp::Root => c.no_panic("storage-fault", d, || trie.root_hash().map(|_| ())),
                };
                if sh.borrow().failed > before {
                    hit = true;
                    c.count("storage faults injected", 1);
                    if let Some(r) = r {
                        c.check(r.is_err(), "storage-fault-swallowed", d);
                    }
                    break;
                }
            }
            let mut key = k.to_le_bytes().to_vec();
            for o in &ops {
                key.extend(show(o).into_bytes());
            }
            c.case(&key, hit);
            if !hit {
                break;
            }
            if k == 3 {
                c.sample(json!({"fault_at": k, "ops": ops.iter().map(show).collect::<Vec<_>>()}));
            }
            k += 1;
            if k > 600 {
                break;
            }
        }
    }
    c.require("storage states checked", 1000);
    c.require("operations on long-lived tries", 20_000);
    c.require("storage faults injected", 500);
}

pub fn c08(c: &mut Ctx) {
    c.rule = "a node (any payload length, any child set) encoded and decoded, or a hostile byte string decoded; non-trivial when the byte string is non-empty".into();
    let n = c.n(60_000, 1_000_000);
    for i in 0..n {
        if !c.in_time(60, 500) {
            break;
        }
        // valid nodes
        let hl = match c.rng.gen_range(0, 6) {
            0 => 0,
            1 => 32,
            2 => c.rng.gen_range(120, 135),
            3 => c.rng.gen_range(0, 600),
            _ => c.rng.gen_range(0, 64),
        };
        let mut node = Node::default();
        node.hash = bytes(&mut c.rng, hl);
        if c.rng.gen() {
            let mut ch = [None; 256];
            let p = *pick(&mut c.rng, &[0u32, 1, 3, 20, 100]);
            for x in ch.iter_mut() {
                if c.rng.gen_range(0, 100) < p {
                    *x = Some(u64_biased(&mut c.rng));
                }
            }
            node.children = Some(ch);
        }
        c.about("node-codec valid");
        let mut buf = Vec::new();
        let r = c.no_panic("node-serialize", || json!(format!("{:?}", node)), || node.serialize(&mut buf));
        if r.is_none() {
            continue;
        }
        let back = c.no_panic("node-deserialize", || json!(hex(&buf)), || Node::deserialize(&buf));
        if let Some(b) = back {
            let same = b.as_ref().map(|b| b.hash == node.hash && b.children == node.children && b.is_leaf() == node.is_leaf() && b.get_child_count() == node.get_child_count());
            c.check(same == Some(true), "node-roundtrip", || json!({"bytes": hex(&buf), "got": format!("{:?}", b.map(|b| (b.hash.len(), b.get_child_count())))}));
            c.count("nodes round-tripped", 1);
        }
        let want = node.children.map_or(0, |ch| ch.iter().flatten().count() as u64);
        c.check(node.get_child_count() == want, "child-count", || json!(want));
        c.case(&buf, true);

        // cut bytes: a node whose payload, kind or child entry is missing its end is refused
        let head = { let mut v = Vec::new(); let mut x = hl as u64; while x > 127 { v.push(0x80); x >>= 7 } v.len() + 1 } + hl + 1;
        for _ in 0..3 {
            let k = match c.rng.gen_range(0, 3) {
                0 => head - 1,
                1 => c.rng.gen_range(0, head),
                _ => c.rng.gen_range(0, buf.len()),
            };
            let whole = k >= head && {
                let mut at = head;
                while at < k {
                    at += 1;
                    while at < buf.len() && buf[at] & 0x80 != 0 { at += 1 }
                    at += 1;
                }
                at == k
            };
            if let Some(r) = c.no_panic("node-deserialize-cut", || json!(hex(&buf[..k])), || Node::deserialize(&buf[..k])) {
                if !whole {
                    c.check(r.is_none(), "cut node accepted", || json!({"node": hex(&buf), "cut at": k}));
                    c.count("cut nodes", 1);
                }
            }
        }

        // hostile bytes
        let mut h = match c.rng.gen_range(0, 6) {
            0 => {
                let k = c.rng.gen_range(0, 40);
                bytes(&mut c.rng, k)
            }
            1 => {
                // a huge declared length
                let mut v = Vec::new();
                let mut x = u64_biased(&mut c.rng);
                loop {
                    let b = (x & 0x7f) as u8;
                    x >>= 7;
                    if x == 0 {
                        v.push(b);
                        break;
                    }
                    v.push(b | 0x80);
                }
                v.extend(bytes(&mut c.rng, 5));
                v
            }
            2 => vec![0xff; c.rng.gen_range(0, 14)],
            3 => {
                let k = c.rng.gen_range(0, buf.len() + 1);
                buf[..k].to_vec()
            }
            _ => {
                let mut v = buf.clone();
                for _ in 0..c.rng.gen_range(1, 4) {
                    let k = c.rng.gen_range(0, v.len());
                    v[k] = c.rng.gen();
                }
                v
            }
        };
        if c.rng.gen_range(0, 10) == 0 {
            h.push(c.rng.gen());
        }
        c.about(&format!("node-decode {}", hex(&h[..h.len().min(60)])));
        let d = c.no_panic("node-deserialize-hostile", || json!(hex(&h)), || Node::deserialize(&h));
        match d {
            Some(Some(n1)) => {
                c.count("hostile bytes decoded", 1);
                c.check(n1.hash.len() <= h.len(), "decoded-more-than-given", || json!(hex(&h)));
                let mut b2 = Vec::new();
                n1.serialize(&mut b2);
                let n2 = guard(|| Node::deserialize(&b2)).ok().flatten();
                c.check(n2.map(|n2| n2.hash == n1.hash && n2.children == n1.children) == Some(true), "hostile-not-idempotent", || json!(hex(&h)));
            }
            Some(None) => c.count("hostile bytes refused", 1),
            None => {}
        }
        c.case(&h, !h.is_empty());
        if i < 2 {
            c.sample(json!({"node_bytes": hex(&buf[..buf.len().min(80)]), "hostile": hex(&h[..h.len().min(80)])}));
        }
    }
    c.require("nodes round-tripped", 1000);
    c.require("hostile bytes refused", 1000);
    c.require("cut nodes", 3000);
}
