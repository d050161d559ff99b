//! C15 sortition, C16 committee credentials.
use crate::core::*;
use crate::refm::{self, binom};
use super::gen;
use crate::refm::ed::Curve;
use algorsand::config;
use algorsand::crypto::{CryptoHash, Hashable, VrfKeypair, VrfProof};
use algorsand::data::basics::*;
use algorsand::data::committee::{credential::*, sortition, BalanceRecord, Selector};
use algorsand::protocol;
use num::bigint::BigUint;
use num::{One, Zero};
use rand::Rng;
use serde_json::json;
use std::collections::HashMap;

/// 2^-30 absolute: far above double rounding of a correct evaluation (about 1e-11), far below any real slip.
const EPS_BITS: u64 = 30;

fn stake(c: &mut Ctx) -> (u64, u64, u64) {
    // (money, total, expected)
    let total = match c.rng.gen_range(0, 8) {
        0 => c.rng.gen_range(1, 50),
        1 => c.rng.gen_range(50, 20_000),
        2 => c.rng.gen_range(20_000, 1_000_000_000),
        3 => 10_000_000_000_000_000,
        4 => c.rng.gen_range(1_000_000_000_000_000, 10_000_000_000_000_000),
        5 => c.rng.gen_range(1_000_000_000_000, 1_000_000_000_000_000),
        _ => c.rng.gen_range(1_000_000_000, 1_000_000_000_000),
    };
    let sizes = [1u64, 20, 20, 1500, 2990, 5000, 6000];
    let expected = if c.rng.gen_range(0, 3) == 0 { c.rng.gen_range(1, 6001) } else { *pick(&mut c.rng, &sizes) }.min(total);
    let money = match c.rng.gen_range(0, 9) {
        0 => c.rng.gen_range(0, 5),
        1 => total,
        2 => total / 2,
        3 => total / 1000,
        4 => total - c.rng.gen_range(0, 3),
        // about one expected selection
        5 | 6 => (total / expected).saturating_mul(c.rng.gen_range(1, 4)),
        _ => (total as f64 * c.rng.gen::<f64>().powi(4)) as u64,
    }
    .min(total);
    (money, total, expected)
}

fn output(c: &mut Ctx, money: u64, total: u64, expected: u64) -> [u8; 32] {
    match c.rng.gen_range(0, 10) {
        0 => arr32_biased(&mut c.rng),
        1 => [0; 32],
        2 => {
            let mut a = [0xff; 32];
            a[0] = 0xff << c.rng.gen_range(0, 8);
            a
        }
        3 | 4 | 5 => {
            // next to a step of the distribution
            let mean = money as f64 * expected as f64 / total as f64;
            let spread = mean.sqrt() * 3.0 + 2.0;
            let k = (mean + spread * (c.rng.gen::<f64>() * 2.0 - 1.0)).max(0.0) as u64;
            if k > 8000 || mean > 8000.0 {
                return arr32(&mut c.rng);
            }
            match binom::cdf_at(money, expected, total, k) {
                Some(t) => {
                    let off = BigUint::one() << (256 - EPS_BITS + c.rng.gen_range(1, 8));
                    let max = (BigUint::one() << 256) - 1u32;
                    let t = if c.rng.gen() { t + off } else if t > off { t - off } else { BigUint::zero() };
                    binom::be32(&t.min(max))
                }
                None => arr32(&mut c.rng),
            }
        }
        _ => arr32(&mut c.rng),
    }
}

pub fn c15(c: &mut Ctx) {
    c.rule = "stakes from 0 to the full supply, committee sizes of the protocol and random ones, outputs random, extreme and next to a step of the distribution; answer compared with the exact quantile at output -+ 2^-30".into();
    c.assumptions.push("outputs within 2^-30 of a step of the distribution may fall on either side (double rounding)".into());
    let n = c.n(2000, 60_000);
    let mut i = 0;
    while i < n && c.in_time(30, 480) {
        i += 1;
        let (money, total, expected) = stake(c);
        let out = output(c, money, total, expected);
        let d = || json!({"money": money, "total": total, "expected": expected, "output": hex(&out)});
        c.about(&format!("select {}", d()));
        let got = match c.no_panic("select", d, || sortition::select(money, total, expected as f64, &CryptoHash(out))) {
            Some(g) => g,
            None => continue,
        };
        c.case(&[&money.to_le_bytes()[..], &total.to_le_bytes(), &expected.to_le_bytes(), &out].concat(), money > 0);
        c.count("selections", 1);
        c.state("weights", &got.to_le_bytes());
        c.check(got <= money, "more than the stake", || json!({"input": d(), "got": got}));
        let t = BigUint::from_bytes_be(&out);
        match binom::quantile(money, expected, total, &t, EPS_BITS, 12_000) {
            Some((lo, hi)) => {
                c.count("exact references", 1);
                if lo == hi { c.count("unambiguous references", 1) }
                if total >= 1_000_000_000_000 { c.count("references at realistic supply", 1) }
                c.sample(json!({"input": d(), "weight": got, "reference": [lo, hi]}));
                c.check(lo <= got && got <= hi, if total >= 1_000_000_000 { "quantile (large stake)" } else { "quantile" },
                    || json!({"input": d(), "got": got, "reference": [lo, hi]}));
            }
            None => c.count("references out of reach", 1),
        }
        // monotone in the output
        if i % 4 == 0 {
            let o2 = output(c, money, total, expected);
            let g2 = c.no_panic("select", d, || sortition::select(money, total, expected as f64, &CryptoHash(o2)));
            if let Some(g2) = g2 {
                c.count("monotone pairs", 1);
                let ok = if out <= o2 { got <= g2 } else { g2 <= got };
                c.check(ok, "not monotone", || json!({"input": d(), "other": hex(&o2), "got": got, "other got": g2}));
            }
        }
    }
    c.require("unambiguous references", 500);
    c.require("references at realistic supply", 200);
    c.require("monotone pairs", 100);
}

/// What agreement hands to the lottery: seed, round, period, step.
#[derive(Clone)]
struct Sel {
    seed: [u8; 32],
    round: u64,
    period: u64,
    step: u64,
    size: u64,
}

impl Hashable for Sel {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        let mut v = self.seed.to_vec();
        v.extend_from_slice(&self.round.to_be_bytes());
        v.extend_from_slice(&self.period.to_be_bytes());
        v.extend_from_slice(&self.step.to_be_bytes());
        (protocol::AGREEMENT_SELECTOR, v)
    }
}

impl Selector for Sel {
    fn committee_size(&self, _: &config::ConsensusParams) -> u64 {
        self.size
    }
}

fn mp_uint(n: u64) -> Vec<u8> {
    if n < 0x80 {
        vec![n as u8]
    } else if n <= 0xff {
        vec![0xcc, n as u8]
    } else if n <= 0xffff {
        [&[0xcd][..], &(n as u16).to_be_bytes()].concat()
    } else if n <= 0xffff_ffff {
        [&[0xce][..], &(n as u32).to_be_bytes()].concat()
    } else {
        [&[0xcf][..], &n.to_be_bytes()].concat()
    }
}

/// The credential hash for one sub-user: with domain separation the hash of the record
/// {raw_out, member, iter}, before it H(output || owner) for the selection and H(that || i || 0..) for sub-user i.
fn credential_hash(ds: bool, out: &[u8], member: &[u8; 32], iter: u64) -> [u8; 32] {
    if ds {
        let mut b = vec![0x83];
        b.extend_from_slice(b"\xa7raw_out\xc4\x40");
        b.extend_from_slice(out);
        b.extend_from_slice(b"\xa6member\xc4\x20");
        b.extend_from_slice(member);
        b.extend_from_slice(b"\xa4iter");
        b.extend_from_slice(&mp_uint(iter));
        return refm::h256(&[b"CR", &b]);
    }
    let h = refm::h256(&[out, member]);
    if iter == 0 {
        return h;
    }
    let mut i = [0u8; 32];
    i[..8].copy_from_slice(&iter.to_be_bytes());
    refm::h256(&[&h, &i])
}

struct Cred {
    c: Credential,
    out: Vec<u8>,
    low: BigUint,
    weight: u64,
    hash: [u8; 32],
}

fn record(r: &mut R, status: Status, money: u64, pk: &algorsand::crypto::VrfPublicKey, addr: Address) -> BalanceRecord {
    let mut data = gen::account_data(r);
    data.status = status;
    data.micro_algos = MicroAlgos(money);
    data.selection_id = pk.clone();
    BalanceRecord { data, addr }
}

pub fn c16(c: &mut Ctx) {
    c.rule = "keys, owners, selectors, stakes random, with and without domain separation; verdict, weight, cached hash and tie-break value recomputed from the output of an independent verifier; tampering with key, selector field, proof, owner and status; order laws over all credentials of a round".into();
    c.assumptions.push("memberships are consistent: 0 < committee size <= total stake, stake <= total stake".into());
    let e = Curve::new();
    let protos: Vec<(bool, config::ConsensusParams)> = {
        let a = config::CONSENSUS.0[&protocol::ConsensusVersion::V30].clone();
        let b = config::CONSENSUS.0[&protocol::ConsensusVersion::V10].clone();
        let mut a2 = b.clone();
        a2.credential_domain_separation_enabled = true;
        let mut b2 = a.clone();
        b2.credential_domain_separation_enabled = false;
        vec![a, b, a2, b2].into_iter().map(|p| (p.credential_domain_separation_enabled, p)).collect()
    };
    let n = c.n(240, 6000);
    let mut i = 0;
    while i < n && c.in_time(40, 500) {
        i += 1;
        let (ds, proto) = pick(&mut c.rng, &protos).clone();
        // a committee that seats everyone gives credentials of any weight
        let huge = i % 40 == 11;
        let mut sel = Sel {
            seed: arr32(&mut c.rng),
            round: u64_biased(&mut c.rng),
            period: c.rng.gen_range(0, 5),
            step: c.rng.gen_range(0, 256),
            size: *pick(&mut c.rng, &[1u64, 5, 20, 1500, 2990]),
        };
        let mut total = *pick(&mut c.rng, &[3000u64, 100_000, 10_000_000_000, 10_000_000_000_000_000]);
        if huge {
            total = c.rng.gen_range(131_000, 200_000);
            sel.size = total;
        }
        // all credentials of this round, for the order laws
        let mut creds: Vec<Cred> = Vec::new();
        let same_key = arr32(&mut c.rng);
        for k in 0..if huge { 2 } else { c.rng.gen_range(2, 6) } {
            let seed = if c.rng.gen_range(0, 3) == 0 { same_key } else { arr32(&mut c.rng) };
            let addr = Address(arr32(&mut c.rng));
            let mean = c.rng.gen_range(0, 12) as f64 / 2.0;
            let money = match c.rng.gen_range(0, 8) {
                _ if huge && k == 0 => total,
                0 => 0,
                1 => total,
                _ => ((total as f64 / sel.size as f64) * mean).min(total as f64) as u64,
            }
            .min(total);
            let status = pick(&mut c.rng, &[Status::Online, Status::Online, Status::Online, Status::Online, Status::Offline, Status::NotParticipating]).clone();
            let d = || json!({"ds": ds, "vrf seed": hex(&seed), "owner": hex(&addr.0), "money": money, "total": total, "size": sel.size,
                "selector": {"seed": hex(&sel.seed), "round": sel.round, "period": sel.period, "step": sel.step}});
            c.about(&format!("credential {}", d()));
            let (pre, body) = sel.to_be_hashed();
            let alpha = refm::h256(&[pre.as_bytes(), &body]);
            let proof = match c.no_panic("prove", d, || verif_prove_credential(&VrfKeypair::from_seed(seed), &sel).verif_bytes()) {
                Some(p) => p,
                None => continue,
            };
            let pk_bytes = e.public(&seed);
            c.check(proof == e.prove(&seed, &alpha), "proof for the selector", d);
            let pk = VrfKeypair::from_seed(seed).public();
            let voting = if matches!(status, Status::Online) { money } else { 0 };
            c.case(&[&proof[..], &addr.0, &money.to_le_bytes()].concat(), true);
            let run = |c: &mut Ctx, what: &str, proof: [u8; 80], pk: &algorsand::crypto::VrfPublicKey, pkb: &[u8; 32], sel: &Sel, addr: Address, status: &Status, voting: u64| -> Option<Cred> {
                let rec = record(&mut c.rng, status.clone(), money, pk, addr);
                let (pre, body) = sel.to_be_hashed();
                let alpha = refm::h256(&[pre.as_bytes(), &body]);
                let want_out = e.verify(pkb, &proof, &alpha);
                let got = c.no_panic("verify", || json!({"what": what, "input": d()}), || {
                    verif_verify_credential(VrfProof::verif_from_bytes(proof), &proto, rec, sel.clone(), MicroAlgos(total))
                })?;
                c.count(what, 1);
                let out = match want_out {
                    None => {
                        c.check(matches!(got, Err(Error::VrfVerifyFailed(_))), &format!("accepted:{}", what), d);
                        return None;
                    }
                    Some(o) => o,
                };
                let h = credential_hash(ds, &out, &addr.0, 0);
                let (lo, hi) = if voting == 0 {
                    (0, 0)
                } else {
                    match binom::quantile(voting, sel.size, total, &BigUint::from_bytes_be(&h), EPS_BITS, 12_000) {
                        Some(x) => x,
                        None => {
                            let w = sortition::select(voting, total, sel.size as f64, &CryptoHash(h));
                            (w, w)
                        }
                    }
                };
                match got {
                    Err(Error::ZeroWeight) => {
                        c.check(lo == 0, "refused although selected", || json!({"what": what, "input": d(), "weight": [lo, hi]}));
                        c.count("not selected", 1);
                        None
                    }
                    Err(_) => {
                        c.violation("valid credential refused", json!({"what": what, "input": d()}));
                        None
                    }
                    Ok(mut cr) => {
                        let w = cr.verif_weight();
                        c.count("selected", 1);
                        c.state("weights", &w.to_le_bytes());
                        c.check(w > 0 && cr.verif_selected(), "zero weight accepted", d);
                        c.check(lo <= w && w <= hi, "weight", || json!({"what": what, "input": d(), "got": w, "reference": [lo, hi]}));
                        c.check(cr.verif_output().0 == h, if ds { "hash (domain separation)" } else { "hash" }, || json!({"what": what, "input": d(), "got": hex(&cr.verif_output().0), "want": hex(&h)}));
                        if w > 1 << 16 { c.count("weights beyond 2^16", 1) }
                        let low = (1..=w).map(|k| BigUint::from_bytes_be(&credential_hash(ds, &out, &addr.0, k))).min().unwrap_or_default();
                        for rep in 0..2 {
                            let g = c.no_panic("lowest output", d, || (cr.verif_lowest_output(), cr.verif_lowest_output_digest().0));
                            if let Some((g, dig)) = g {
                                c.check(g.to_biguint() == Some(low.clone()) && dig == binom::be32(&low), if rep == 0 { "lowest output" } else { "lowest output, second call" },
                                    || json!({"what": what, "input": d(), "weight": w, "got": g.to_string(), "want": low.to_string()}));
                                c.count(if w > 1 { "tie-break values over several sub-users" } else { "tie-break values of one sub-user" }, 1);
                            }
                        }
                        Some(Cred { c: cr, out, low, weight: w, hash: h })
                    }
                }
            };
            let base = run(c, "honest", proof, &pk, &pk_bytes, &sel, addr, &status, voting);
            // tampering
            match c.rng.gen_range(0, 5) {
                0 => {
                    let mut s2 = sel.clone();
                    match c.rng.gen_range(0, 4) {
                        0 => s2.seed[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8),
                        1 => s2.round = s2.round.wrapping_add(1),
                        2 => s2.period += 1,
                        _ => s2.step = (s2.step + 1) % 256,
                    }
                    run(c, "other selector", proof, &pk, &pk_bytes, &s2, addr, &Status::Online, money);
                }
                1 => {
                    let o = arr32(&mut c.rng);
                    run(c, "other key", proof, &VrfKeypair::from_seed(o).public(), &e.public(&o), &sel, addr, &Status::Online, money);
                }
                2 => {
                    let mut p = proof;
                    p[c.rng.gen_range(0, 80)] ^= 1 << c.rng.gen_range(0, 8);
                    run(c, "edited proof", p, &pk, &pk_bytes, &sel, addr, &Status::Online, money);
                }
                3 => {
                    // same key, other owner: an independent draw
                    let a2 = Address(arr32(&mut c.rng));
                    let o = run(c, "other owner", proof, &pk, &pk_bytes, &sel, a2, &status, voting);
                    if let (Some(a), Some(b)) = (&base, &o) {
                        c.check(a.out == b.out && a.hash != b.hash && a.low != b.low && a.c != b.c, "owner not bound", d);
                        c.count("same key, other owner", 1);
                    }
                }
                _ => {
                    run(c, "offline", proof, &pk, &pk_bytes, &sel, addr, &Status::Offline, 0);
                }
            }
            if let Some(b) = base {
                c.sample(json!({"input": d(), "weight": b.weight, "lowest": b.low.to_string()}));
                creds.push(b);
                // the same credential once more: equal, and neither is before the other
                if c.rng.gen_range(0, 3) == 0 {
                    if let Some(b) = run(c, "honest", proof, &pk, &pk_bytes, &sel, addr, &status, voting) {
                        creds.push(b);
                        c.count("credentials verified twice", 1);
                    }
                }
            }
        }
        // order laws
        let mut wins: HashMap<usize, usize> = HashMap::new();
        for a in 0..creds.len() {
            for b in 0..creds.len() {
                let want = creds[a].low < creds[b].low;
                let eqw = creds[a].hash == creds[b].hash;
                let (lt, eq) = if a == b {
                    let x = &mut creds[a];
                    let same = x.c == x.c;
                    (false, same)
                } else {
                    let (l, r) = creds.split_at_mut(a.max(b));
                    let (x, y) = if a < b { (&mut l[a], &mut r[0]) } else { (&mut r[0], &mut l[b]) };
                    (x.c.verif_lt(&mut y.c), x.c == y.c)
                };
                c.count("comparisons", 1);
                if lt { *wins.entry(a).or_insert(0) += 1 }
                c.check(lt == want, "order", || json!({"a": creds[a].low.to_string(), "b": creds[b].low.to_string(), "got": lt}));
                c.check(eq == eqw, "equality", || json!({"a": hex(&creds[a].hash), "b": hex(&creds[b].hash), "got": eq}));
            }
        }
        c.state("order sizes", &[creds.len() as u8, wins.len() as u8]);
    }
    c.require("selected", 100);
    c.require("credentials verified twice", 10);
    c.require("weights beyond 2^16", 1);
    c.require("not selected", 30);
    c.require("tie-break values over several sub-users", 50);
    c.require("other selector", 20);
    c.require("comparisons", 100);
    c.require("same key, other owner", 5);
}
