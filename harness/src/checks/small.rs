//! C37 bit sets, statuses, amounts as text, sizes and the accessors of blocks and transactions.
use super::gen;
use crate::core::*;
use crate::refm;
use algorsand::crypto::{hash_obj, Bitset};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use algorsand::{config, protocol};
use rand::Rng;
use serde_json::json;
use std::collections::BTreeSet;
use std::convert::TryFrom;

fn bits(c: &mut Ctx) {
    let mut b = Bitset::default();
    let mut m: BTreeSet<u64> = BTreeSet::new();
    let mut saved = (b, m.clone());
    let pool: Vec<u64> = match c.rng.gen_range(0, 3) {
        0 => vec![0, 1, 31, 32, 63, 64, 65, 127, 128, 191, 192, 254, 255],
        1 => (0..8).map(|_| c.rng.gen_range(0, 256)).collect(),
        _ => (0..256).collect(),
    };
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..c.rng.gen_range(1, 60) {
        let i = *pick(&mut c.rng, &pool);
        match c.rng.gen_range(0, 8) {
            0..=3 => {
                b.set_bit(i);
                m.insert(i);
                hist.push(format!("set {}", i));
            }
            4..=5 => {
                b.clear_bit(i);
                m.remove(&i);
                hist.push(format!("clear {}", i));
            }
            6 if c.rng.gen_range(0, 4) == 0 => {
                for i in std::mem::take(&mut m) {
                    b.clear_bit(i);
                }
                hist.push("clear all".into());
            }
            6 => {
                saved = (b, m.clone());
                hist.push("copy".into());
            }
            _ => {
                // the same set built anew in another order is an equal value
                let mut x = Bitset::default();
                for i in m.iter().rev() {
                    x.set_bit(*i);
                }
                c.check(x == b, "equal bit sets compare unequal", || json!({"history": hist}));
                hist.push("compare".into());
            }
        }
        c.count("bit set operations", 1);
        let wrong: Vec<u64> = (0..256).filter(|i| b.bit(*i) != m.contains(i)).collect();
        c.check(wrong.is_empty(), "bit set holds other bits", || json!({"history": hist, "wrong": wrong}));
        c.check(b.is_zero() == m.is_empty(), "emptiness of a bit set", || json!({"history": hist}));
        c.check((saved.0 == b) == (saved.1 == m), "equality of bit sets", || json!({"history": hist}));
        if m.is_empty() {
            c.count("empty bit sets", 1);
        }
    }
    c.case(hist.join(",").as_bytes(), true);
}

fn texts(c: &mut Ctx) {
    for (s, name) in [(Status::Offline, "Offline"), (Status::Online, "Online"), (Status::NotParticipating, "Not Participating")].iter() {
        c.check(s.to_string() == *name, "text of a status", || json!({"status": name, "text": s.to_string()}));
        c.check(Status::try_from(*name).map(|t| t == *s) == Ok(true), "status read back", || json!({"status": name}));
        for _ in 0..6 {
            let t = gen::near_text(&mut c.rng, name);
            if !["Offline", "Online", "Not Participating"].contains(&t.as_str()) {
                c.count("other status names", 1);
                c.check(Status::try_from(t.as_str()).is_err(), "status read from another text", || json!({"text": t}));
            }
        }
    }
    let (x, y) = (amount(&mut c.rng), amount(&mut c.rng));
    c.check(MicroAlgos(x).to_string() == format!("μA {}", x), "text of an amount", || json!({"amount": x}));
    c.check(Round(x).to_string() == format!("{}", x), "text of a round", || json!({"round": x}));
    if let Some(s) = x.checked_add(y) {
        c.check((MicroAlgos(x) + MicroAlgos(y)).0 == s, "sum of amounts", || json!({"amounts": [x, y]}));
        c.count("sums", 1);
    }
    c.case(format!("{} {}", x, y).as_bytes(), true);
}

fn amount(r: &mut R) -> u64 {
    match r.gen_range(0, 4) {
        0 => r.gen_range(0, 5),
        1 => u64::MAX - r.gen_range(0, 5),
        2 => 1u64 << r.gen_range(0, 64),
        _ => r.gen(),
    }
}

fn values(c: &mut Ctx) {
    let l = gen::lsig(&mut c.rng);
    let total: usize = l.logic.len() + l.args.iter().map(|a| a.len()).sum::<usize>();
    let ld = || json!({"program": l.logic.len(), "args": l.args.iter().map(|a| a.len()).collect::<Vec<_>>()});
    c.check(l.len() == total, "length of a program with its arguments", ld);
    c.check(l.is_empty() == l.logic.is_empty(), "emptiness of a program", ld);
    c.state("program lengths", &(total as u32).to_le_bytes());

    let txs = gen::list(&mut c.rng, 4, gen::signed);
    for t in &txs {
        let e = protocol::encode(t);
        c.check(t.get_encoded_length() == e.len(), "encoded length of a signed transaction", || json!({"encoding": hex(&e)}));
        c.check(t.id().0 == t.tx.id().0, "id of a signed transaction", || json!({"encoding": hex(&e)}));
    }
    let w = wrap_signed_txs_with_ad(&txs);
    c.check(w.len() == txs.len() && w.iter().zip(&txs).all(|(w, t)| w.tx == *t && w.ad == ApplyData::default()), "wrapped transactions", || json!({"count": txs.len()}));
    c.count("wrapped transactions", w.len() as u64);
    let b = gen::in_block(&mut c.rng);
    let e = protocol::encode(&b);
    c.check(b.get_encoded_length() == e.len(), "encoded length of a transaction in a block", || json!({"encoding": hex(&e)}));

    let mut h = gen::block_header(&mut c.rng);
    let known: Vec<protocol::ConsensusVersion> = config::CONSENSUS.0.keys().cloned().collect();
    let cv = known.iter().min_by_key(|v| refm::h256(&[v.to_string().as_bytes(), &arr32(&mut c.rng)])).unwrap().clone();
    h.upgrade_state.current_protocol = cv.clone();
    let blk = Block { header: h.clone(), payset: Payset(gen::list(&mut c.rng, 2, gen::in_block)) };
    let hd = || json!({"header": hex(&protocol::encode(&h))});
    c.check(blk.round() == h.round, "round of a block", hd);
    c.check(blk.genesis_id() == h.genesis_id, "genesis id of a block", hd);
    c.check(blk.genesis_hash() == h.genesis_hash, "genesis hash of a block", hd);
    c.check(blk.seed().0 == h.seed.0, "seed of a block", hd);
    let same = c.no_panic("protocol of a block", hd, || protocol::encode(blk.consensus_protocol()) == protocol::encode(&config::CONSENSUS.0[&cv]));
    c.check(same != Some(false), "protocol of a block", hd);
    c.state("block protocols", cv.to_string().as_bytes());
    let s = arr32(&mut c.rng);
    let blk2 = blk.with_seed(Seed(s));
    let mut h2 = h.clone();
    h2.seed = Seed(s);
    c.check(protocol::encode(&blk2.header) == protocol::encode(&h2) && blk2.payset.0 == blk.payset.0, "block with another seed", hd);
    c.check(hash_obj(&Seed(s)).0 == refm::h256(&[b"SD", &s]), "hash of a seed", || json!({"seed": hex(&s)}));
    c.case(&protocol::encode(&h), true);
    c.count("blocks", 1);
}

pub fn c37(c: &mut Ctx) {
    c.rule = "histories of bit operations against a set; statuses, amounts and rounds as text; sizes and accessors of random programs, transactions and blocks".into();
    let n = c.n(20_000, 1_000_000);
    let mut i = 0;
    while i < n && c.in_time(15, 200) {
        i += 1;
        match i % 3 {
            0 => bits(c),
            1 => texts(c),
            _ => values(c),
        }
    }
    c.require("bit set operations", 1000);
    c.require("empty bit sets", 20);
    c.require("other status names", 200);
    c.require("blocks", 100);
    c.require("distinct block protocols", 10);
    c.require("distinct program lengths", 10);
    c.require("wrapped transactions", 100);
}
