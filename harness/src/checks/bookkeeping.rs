//! C22 block production and validation, C23 protocol upgrades, C24 rewards, C26 block transaction lists, C33 genesis.
use super::gen;
use crate::core::*;
use crate::refm::{self, params};
use algorsand::config::{ConsensusParams, PaysetCommitType, CONSENSUS};
use algorsand::crypto::hashable::hash_obj;
use algorsand::crypto::merklearray::Tree;
use algorsand::crypto::CryptoHash;
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee;
use algorsand::data::transactions::*;
use algorsand::protocol::{self, ConsensusVersion as CV};
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;

pub const DEPRECATED: [CV; 7] = [
    CV::DeprecatedV0, CV::DeprecatedV1, CV::DeprecatedV2, CV::DeprecatedV3, CV::DeprecatedV4, CV::DeprecatedV5, CV::DeprecatedV6,
];

type Table = HashMap<CV, ConsensusParams>;

fn any_version(r: &mut R) -> CV {
    if r.gen_range(0, 8) == 0 {
        *pick(r, &DEPRECATED)
    } else {
        pick(r, &params::ALL).1
    }
}

/// The protocols this worker runs under: the published ones on the first two shards; on the others
/// some are replaced, through the configuration file, by ones with short voting and waiting times.
fn protocols(c: &mut Ctx) -> Table {
    let mut t: Table = params::ALL.iter().map(|x| (x.1, params::params(x.1))).collect();
    if c.shard < 2 {
        c.count("workers with the published protocols", 1);
    } else {
        let mut custom: HashMap<CV, ConsensusParams> = HashMap::new();
        for (_, v) in params::ALL.iter() {
            if c.rng.gen_range(0, 5) == 0 {
                continue;
            }
            let mut p = params::params(*v);
            p.upgrade_vote_rounds = c.rng.gen_range(1, 14);
            p.upgrade_threshold = c.rng.gen_range(0, p.upgrade_vote_rounds + 2);
            p.default_upgrade_wait_rounds = c.rng.gen_range(0, 6);
            p.min_upgrade_wait_rounds = c.rng.gen_range(0, 3);
            p.max_upgrade_wait_rounds = p.min_upgrade_wait_rounds + c.rng.gen_range(0, 7);
            p.max_timestamp_increment = *pick(&mut c.rng, &[25, 25, 1, 0, 1000]);
            p.approved_upgrades.clear();
            for _ in 0..c.rng.gen_range(1, 3) {
                let to = pick(&mut c.rng, &params::ALL).1;
                let d = c.rng.gen_range(p.min_upgrade_wait_rounds, p.max_upgrade_wait_rounds + 1);
                if to != *v {
                    p.approved_upgrades.insert(to, d);
                }
            }
            if p.approved_upgrades.is_empty() {
                continue;
            }
            t.insert(*v, p.clone());
            custom.insert(*v, p);
        }
        std::fs::write("consensus.json", serde_json::to_vec(&custom).unwrap()).unwrap();
        c.count("workers with custom protocols", 1);
        c.count("custom protocols", custom.len() as u64);
    }
    for (v, p) in &t {
        let got = CONSENSUS.0.get(v);
        c.check(got.map_or(false, |g| serde_json::to_value(g).ok() == serde_json::to_value(p).ok()), "protocol in force differs from the published or configured one", || json!(v.to_string()));
    }
    t
}

// ---- upgrade reference -----------------------------------------------------------

fn clear(s: &mut UpgradeState) {
    s.next_protocol = None;
    s.next_protocol_approvals = 0;
    s.next_protocol_vote_before = Round(0);
    s.next_protocol_switch_on = Round(0);
}

/// A vote proposes nothing when it names the protocol in force.
fn ref_vote(t: &Table, s: &UpgradeState, round: u64, v: &UpgradeVote) -> Result<UpgradeState, &'static str> {
    let p = t.get(&s.current_protocol).ok_or("unsupported")?;
    let mut n = s.clone();
    if v.upgrade_propose != s.current_protocol {
        if s.next_protocol.is_some() {
            return Err("competing");
        }
        let d = v.upgrade_delay.0;
        if d > p.max_upgrade_wait_rounds || d < p.min_upgrade_wait_rounds {
            return Err("delay");
        }
        let d = if d == 0 { p.default_upgrade_wait_rounds } else { d };
        n.next_protocol = Some(v.upgrade_propose);
        n.next_protocol_approvals = 0;
        n.next_protocol_vote_before = Round(round + p.upgrade_vote_rounds);
        n.next_protocol_switch_on = Round(round + p.upgrade_vote_rounds + d);
    } else if v.upgrade_delay.0 != 0 {
        return Err("delay without proposal");
    }
    if v.upgrade_approve {
        if n.next_protocol.is_none() {
            return Err("nothing to approve");
        }
        if round >= n.next_protocol_vote_before.0 {
            return Err("late approval");
        }
        n.next_protocol_approvals += 1;
    }
    if n.next_protocol.is_some() && round == n.next_protocol_vote_before.0 && n.next_protocol_approvals < p.upgrade_threshold {
        clear(&mut n);
    }
    if round == n.next_protocol_switch_on.0 {
        if let Some(x) = n.next_protocol {
            n.current_protocol = x;
            clear(&mut n);
        }
    }
    Ok(n)
}

/// The name of a version is limited in length; the code may or may not enforce that.
fn name_too_long(t: &Table, s: &UpgradeState, v: &UpgradeVote) -> bool {
    t.get(&s.current_protocol).map_or(false, |p| v.upgrade_propose.to_string().len() > p.max_version_string_len as usize)
}

fn ju(s: &UpgradeState) -> Value {
    json!({"current": s.current_protocol.to_string(), "next": s.next_protocol.map(|x| x.to_string()), "approvals": s.next_protocol_approvals,
        "vote_before": s.next_protocol_vote_before.0, "switch_on": s.next_protocol_switch_on.0})
}

fn jv(v: &UpgradeVote) -> Value {
    json!({"propose": v.upgrade_propose.to_string(), "delay": v.upgrade_delay.0, "approve": v.upgrade_approve})
}

fn a_vote(r: &mut R, t: &Table, s: &UpgradeState) -> UpgradeVote {
    let none = UpgradeVote { upgrade_propose: s.current_protocol, upgrade_delay: Round(0), upgrade_approve: false };
    let p = t.get(&s.current_protocol).cloned().unwrap_or_default();
    match r.gen_range(0, 12) {
        0..=2 => none,
        3..=6 => UpgradeVote { upgrade_approve: true, ..none },
        7..=9 => UpgradeVote {
            upgrade_propose: any_version(r),
            upgrade_delay: Round(match r.gen_range(0, 7) {
                0 => 0,
                1 => p.min_upgrade_wait_rounds.saturating_sub(1),
                2 => p.min_upgrade_wait_rounds,
                3 => p.max_upgrade_wait_rounds,
                4 => p.max_upgrade_wait_rounds + 1,
                5 => r.gen_range(p.min_upgrade_wait_rounds, p.max_upgrade_wait_rounds + 1),
                _ => u64_biased(r),
            }),
            upgrade_approve: r.gen(),
        },
        10 => UpgradeVote { upgrade_delay: Round(u64_biased(r)), ..none },
        _ => UpgradeVote { upgrade_propose: any_version(r), upgrade_delay: Round(u64_biased(r)), upgrade_approve: r.gen() },
    }
}

fn enc_h(h: &BlockHeader) -> Vec<u8> {
    protocol::encode(h)
}

/// What this node itself votes after `prev`: judged against the rules, then applied.
fn own_vote(c: &mut Ctx, t: &Table, prev: &BlockHeader) -> Option<(UpgradeVote, UpgradeState)> {
    let mut p = prev.clone();
    let s = &prev.upgrade_state;
    let d = || json!({"round": prev.round.0, "state": ju(s)});
    let got = c.no_panic("own vote", d, || process_upgrade_params(&mut p))?;
    c.check(enc_h(&p) == enc_h(prev), "voting changed the previous header", d);
    c.count("own votes", 1);
    let (v, n) = match got {
        Ok(x) => x,
        Err(e) => {
            c.check(!t.contains_key(&s.current_protocol), "own vote refused", || json!({"at": d(), "error": e.to_string()}));
            return None;
        }
    };
    let round = prev.round.0 + 1;
    let dd = || json!({"at": d(), "vote": jv(&v), "result": ju(&n)});
    let ap = match t.get(&s.current_protocol) {
        Some(p) => &p.approved_upgrades,
        None => {
            c.violation("vote under an unsupported protocol", dd());
            return None;
        }
    };
    let proposes = v.upgrade_propose != s.current_protocol;
    let ok = match s.next_protocol {
        None if ap.is_empty() => !proposes && !v.upgrade_approve && v.upgrade_delay.0 == 0,
        None => proposes && v.upgrade_approve && ap.get(&v.upgrade_propose) == Some(&v.upgrade_delay.0),
        Some(x) => !proposes && v.upgrade_delay.0 == 0 && v.upgrade_approve == (round < s.next_protocol_vote_before.0 && ap.contains_key(&x)),
    };
    c.check(ok, "own vote breaks the voting rules", dd);
    match ref_vote(t, s, round, &v) {
        Ok(w) => { c.check(w == n, "state after own vote", || json!({"got": dd(), "want": ju(&w)})); }
        Err(e) => { c.check(false, "own vote is invalid", || json!({"got": dd(), "rule": e})); }
    }
    c.count(if proposes { "own proposals" } else if v.upgrade_approve { "own approvals" } else { "own empty votes" }, 1);
    Some((v, n))
}

fn version_info(c: &mut Ctx, t: &Table, s: &UpgradeState, round: u64) {
    let mut h = BlockHeader::default();
    h.round = Round(round);
    h.upgrade_state = s.clone();
    let d = || json!({"round": round, "state": ju(s)});
    if let Some((v, at, sup)) = c.no_panic("next version", d, || h.next_version_info()) {
        let pending = s.next_protocol.is_some() && s.next_protocol_vote_before.0 <= round && round < s.next_protocol_switch_on.0;
        let w = if pending { (s.next_protocol, s.next_protocol_switch_on) } else { (Some(s.current_protocol), Round(round + 1)) };
        let ws = t.contains_key(&w.0.unwrap());
        c.count(if pending { "next version: scheduled" } else { "next version: current" }, 1);
        if !ws {
            c.count("next version: unsupported", 1);
        }
        c.check((v, at) == w, "announced next version", || json!({"at": d(), "got": [v.map(|x| x.to_string()).unwrap_or_default(), at.0.to_string()], "want": [w.0.unwrap().to_string(), w.1 .0.to_string()]}));
        c.check(sup == ws, "announced support for the next version", || json!({"at": d(), "got": sup, "want": ws}));
    }
}

pub fn c23(c: &mut Ctx) {
    c.rule = "vote histories of single blocks under the published protocols and under configured ones with short voting and waiting times; each vote (the node's own, valid, boundary and random ones) applied to the code and to an independent state machine in lock step".into();
    let t = protocols(c);
    let n = c.n(60_000, 4_000_000);
    let mut i = 0;
    while i < n && c.in_time(15, 480) {
        i += 1;
        let start = pick(&mut c.rng, &params::ALL).1;
        let mut s = UpgradeState { current_protocol: start, ..Default::default() };
        clear(&mut s);
        let mut round: u64 = match c.rng.gen_range(0, 4) {
            0 => 1,
            1 => c.rng.gen_range(1, 100),
            2 => c.rng.gen_range(1, 1 << 40),
            _ => c.rng.gen_range(1 << 40, 1 << 62),
        };
        let mut hist: Vec<Value> = Vec::new();
        let mut proposed: Option<(CV, u64)> = None;
        let steps = c.rng.gen_range(5, 60);
        let lazy = c.rng.gen_range(0, 3) == 0;
        for _ in 0..steps {
            c.about(&format!("round {} {}", round, ju(&s)));
            let p = match t.get(&s.current_protocol) {
                Some(p) => p.clone(),
                None => {
                    // switched to a protocol this node does not know: everything is refused
                    let v = a_vote(&mut c.rng, &t, &s);
                    let d = || json!({"round": round, "state": ju(&s), "vote": jv(&v)});
                    if let Some(r) = c.no_panic("vote under an unsupported protocol", d, || s.verif_apply_upgrade_vote(Round(round), &v)) {
                        c.check(r.is_err(), "vote accepted under an unsupported protocol", d);
                    }
                    c.count("unsupported protocols reached", 1);
                    break;
                }
            };
            // skip ahead to a deadline, with a tally near the threshold
            if s.next_protocol.is_some() && p.upgrade_vote_rounds > 100 && c.rng.gen_range(0, 3) == 0 {
                let b = s.next_protocol_vote_before.0;
                if round < b {
                    round = b - c.rng.gen_range(0, 4);
                    s.next_protocol_approvals = (p.upgrade_threshold + 2).saturating_sub(c.rng.gen_range(0, 6));
                } else {
                    round = s.next_protocol_switch_on.0.saturating_sub(c.rng.gen_range(0, 3)).max(round);
                }
            }
            let v = if c.rng.gen_range(0, 4) == 0 || lazy {
                let mut h = BlockHeader::default();
                h.round = Round(round - 1);
                h.upgrade_state = s.clone();
                match own_vote(c, &t, &h) {
                    Some(x) => x.0,
                    None => break,
                }
            } else {
                a_vote(&mut c.rng, &t, &s)
            };
            let d = || json!({"round": round, "state": ju(&s), "vote": jv(&v), "history": hist});
            let got = match c.no_panic("vote", d, || s.verif_apply_upgrade_vote(Round(round), &v)) {
                Some(x) => x,
                None => break,
            };
            let want = ref_vote(&t, &s, round, &v);
            c.case(format!("{} {} {} {}", ju(&s), jv(&v), round, p.upgrade_vote_rounds).as_bytes(), true);
            match (&got, &want) {
                (Ok(g), Ok(w)) => {
                    c.check(g == w, "state after vote", || json!({"at": d(), "got": ju(g), "want": ju(w)}));
                }
                (Err(_), Err(w)) => {
                    c.count("votes refused", 1);
                    c.state("refusals", w.as_bytes());
                }
                (Ok(g), Err(w)) => {
                    c.violation(&format!("invalid vote accepted:{}", w), json!({"at": d(), "got": ju(g)}));
                    break;
                }
                (Err(e), Ok(w)) => {
                    if !name_too_long(&t, &s, &v) {
                        c.violation("valid vote refused", json!({"at": d(), "error": e.to_string(), "want": ju(w)}));
                    }
                    if e.to_string().is_empty() { break }
                    continue;
                }
            }
            if let (Ok(g), Ok(_)) = (got, want) {
                // whole-history monitor: a switch happens only to what was proposed, at the announced round
                if g.current_protocol != s.current_protocol {
                    c.count("switches", 1);
                    let exp = if v.upgrade_propose != s.current_protocol { Some((v.upgrade_propose, round)) } else { proposed };
                    c.check(exp == Some((g.current_protocol, round)), "switched to something not announced for this round", d);
                }
                if s.next_protocol.is_none() && g.next_protocol.is_some() {
                    c.count("proposals", 1);
                }
                if s.next_protocol.is_some() && g.next_protocol.is_none() && g.current_protocol == s.current_protocol {
                    c.count("proposals dropped", 1);
                    c.check(round == s.next_protocol_vote_before.0, "proposal dropped before its deadline", d);
                }
                if g.next_protocol_approvals > s.next_protocol_approvals && g.next_protocol == s.next_protocol {
                    c.count("approvals", 1);
                }
                proposed = g.next_protocol.map(|x| (x, g.next_protocol_switch_on.0));
                if hist.len() < 40 {
                    hist.push(json!([round, jv(&v)]));
                }
                s = g;
                version_info(c, &t, &s, round);
                round += 1;
            }
        }
        c.sample(json!({"start": start.to_string(), "votes": hist, "end": ju(&s)}));
    }
    c.require("switches", 300);
    c.require("proposals dropped", 200);
    c.require("approvals", 1000);
    c.require("votes refused", 2000);
    c.require("distinct refusals", 5);
    c.require("own proposals", 200);
    c.require("next version: scheduled", 200);
    c.require("next version: unsupported", 20);
}

// ---- C22 ------------------------------------------------------------------------------------

fn header_hash(h: &BlockHeader) -> CryptoHash {
    CryptoHash(refm::h256(&[b"BH", &enc_h(h)]))
}

/// The first rule the header breaks as successor of `prev`.
fn ref_check(t: &Table, h: &BlockHeader, prev: &BlockHeader) -> Result<(), &'static str> {
    let p = t.get(&h.upgrade_state.current_protocol).ok_or("unsupported protocol")?;
    let zero = CryptoHash([0; 32]);
    if h.round.0 as u128 != prev.round.0 as u128 + 1 {
        return Err("round");
    }
    if h.branch != header_hash(prev) {
        return Err("link");
    }
    match ref_vote(t, &prev.upgrade_state, h.round.0, &h.upgrade_vote) {
        Err(_) => return Err("vote"),
        Ok(s) if s != h.upgrade_state => return Err("upgrade state"),
        _ => {}
    }
    if prev.timestamp > 0 {
        if h.timestamp < prev.timestamp {
            return Err("early");
        }
        if h.timestamp as u128 > prev.timestamp as u128 + p.max_timestamp_increment as u128 {
            return Err("late");
        }
    }
    if h.genesis_id.is_empty() {
        return Err("genesis id missing");
    }
    if !prev.genesis_id.is_empty() && h.genesis_id != prev.genesis_id {
        return Err("genesis id");
    }
    if p.support_genesis_hash {
        if h.genesis_hash == zero {
            return Err("genesis hash missing");
        }
        if prev.genesis_hash != zero && h.genesis_hash != prev.genesis_hash {
            return Err("genesis hash");
        }
    } else if h.genesis_hash != zero {
        return Err("genesis hash not supported");
    }
    Ok(())
}

fn jh(h: &BlockHeader) -> Value {
    json!({"round": h.round.0, "branch": hex(&h.branch.0), "timestamp": h.timestamp, "genesis_id": h.genesis_id, "genesis_hash": hex(&h.genesis_hash.0),
        "state": ju(&h.upgrade_state), "vote": jv(&h.upgrade_vote), "hash": hex(&header_hash(h).0)})
}

fn judge(c: &mut Ctx, t: &Table, h: &BlockHeader, prev: &BlockHeader, what: &str) {
    let want = ref_check(t, h, prev);
    if name_too_long(t, &prev.upgrade_state, &h.upgrade_vote) {
        return;
    }
    let d = || json!({"altered": what, "header": jh(h), "previous": jh(prev)});
    let mut p = prev.clone();
    let got = match c.no_panic("validation", d, || h.pre_check(&mut p)) {
        Some(g) => g,
        None => return,
    };
    c.check(enc_h(&p) == enc_h(prev), "validation changed the previous header", d);
    c.count("validations", 1);
    match (got, want) {
        (Ok(()), Ok(())) => c.count("accepted", 1),
        (Err(_), Err(w)) => {
            c.count("rejected", 1);
            c.state("rejection reasons", w.as_bytes());
        }
        (Ok(()), Err(w)) => c.violation(&format!("accepted:{}", w), d()),
        (Err(e), Ok(())) => c.violation("valid header rejected", json!({"at": d(), "error": e.to_string()})),
    }
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

pub fn c22(c: &mut Ctx) {
    c.rule = "chains of blocks produced from each other (with the node's own vote or another valid one) from generated first blocks, under published and configured protocols and from a clock behind, level with and ahead of the chain; each child validated, and every single-field alteration of child and parent judged by an independent statement of the rules".into();
    let t = protocols(c);
    let n = c.n(8000, 400_000);
    let mut i = 0;
    while i < n && c.in_time(15, 480) {
        i += 1;
        let start = pick(&mut c.rng, &params::ALL).1;
        let mut prev = BlockHeader::default();
        prev.round = Round(if c.rng.gen() { 0 } else { c.rng.gen_range(0, 1 << 50) });
        prev.branch = CryptoHash(arr32_biased(&mut c.rng));
        prev.seed = committee::Seed(arr32(&mut c.rng));
        prev.tx_root = CryptoHash(arr32(&mut c.rng));
        prev.genesis_id = if c.rng.gen_range(0, 6) == 0 {
            pick(&mut c.rng, &[" ", "  ", "\t", "\n", "\0", "0", "-", "\u{a0}", "null"]).to_string()
        } else {
            format!("net{}-v1", c.rng.gen_range(0, 9))
        };
        let gh = CryptoHash(loop {
            let g = arr32_biased(&mut c.rng);
            if g != [0; 32] {
                break g;
            }
        });
        if t[&start].support_genesis_hash {
            prev.genesis_hash = gh.clone();
        }
        prev.rewards_state = gen::rewards_state(&mut c.rng);
        prev.upgrade_state = UpgradeState { current_protocol: start, ..Default::default() };
        clear(&mut prev.upgrade_state);
        prev.upgrade_vote = UpgradeVote { upgrade_propose: start, upgrade_delay: Round(0), upgrade_approve: false };
        let clock = now();
        prev.timestamp = match c.rng.gen_range(0, 10) {
            0 | 1 => 0,
            2 => clock,
            3 => clock - c.rng.gen_range(0, 60),
            4 => clock + c.rng.gen_range(0, 100),
            5 => clock - 100_000,
            6 => clock + 1_000_000,
            7 => u64::MAX - c.rng.gen_range(0, 40),
            8 => 1,
            _ => u64_biased(&mut c.rng),
        };
        let len = c.rng.gen_range(1, 25);
        for _ in 0..len {
            let d = || json!({"previous": jh(&prev)});
            c.about(&format!("child of {}", jh(&prev)));
            if !t.contains_key(&prev.upgrade_state.current_protocol) {
                c.count("chains ended by an unsupported protocol", 1);
                break;
            }
            // would the block's own protocol be unknown? then production cannot succeed
            let own = match own_vote(c, &t, &prev) {
                Some(x) => x,
                None => break,
            };
            let p = match t.get(&own.1.current_protocol) {
                Some(p) => p.clone(),
                None => break,
            };
            let t0 = now();
            let mut pv = prev.clone();
            let made = c.no_panic("production", d, || Block::new(&mut pv));
            let t1 = now();
            let b = match made {
                Some(b) => b,
                None => break,
            };
            c.check(enc_h(&pv) == enc_h(&prev), "production changed the previous header", d);
            c.count("blocks produced", 1);
            let mut h = b.header.clone();
            let dd = || json!({"previous": jh(&prev), "child": jh(&b.header)});
            c.check(h.round.0 == prev.round.0 + 1, "round of the child", dd);
            c.check(h.branch == header_hash(&prev), "link of the child", dd);
            c.check(h.genesis_id == prev.genesis_id && h.genesis_hash == prev.genesis_hash, "genesis identity of the child", dd);
            c.check(b.payset.0.is_empty(), "transactions in a fresh block", dd);
            c.check(h.rewards_state.fee_sink == prev.rewards_state.fee_sink && h.rewards_state.rewards_pool == prev.rewards_state.rewards_pool, "special addresses of the child", dd);
            match ref_vote(&t, &prev.upgrade_state, h.round.0, &h.upgrade_vote) {
                Ok(s) => { c.check(s == h.upgrade_state, "upgrade state of the child", dd); }
                Err(_) => { c.check(false, "upgrade vote of the child", dd); }
            }
            // two approved upgrades may be proposed in any order, so the child's own protocol counts
            let p = t.get(&h.upgrade_state.current_protocol).cloned().unwrap_or(p);
            let clamp = |x: u64| if prev.timestamp == 0 { x } else { x.max(prev.timestamp).min(prev.timestamp.saturating_add(p.max_timestamp_increment)) };
            c.check(clamp(t0) <= h.timestamp && h.timestamp <= clamp(t1), "time of the child", || json!({"at": dd(), "clock": [t0, t1]}));
            c.state("time class", if prev.timestamp == 0 { b"0" } else if clamp(t0) == t0 { b"1" } else if t0 < prev.timestamp { b"2" } else { b"3" });
            match p.payset_commit {
                PaysetCommitType::Flat => { c.check(h.tx_root.0 == refm::h256(&[b"PF", &[0x90]]), "commitment of an empty block", dd); }
                PaysetCommitType::Merkle => { c.check(h.tx_root.0 == [0; 32], "commitment of an empty block", dd); }
                PaysetCommitType::Unsupported => {}
            }
            // the evaluator supplies the genesis hash when the protocol starts to need it
            if p.support_genesis_hash && prev.genesis_hash.0 == [0; 32] {
                judge(c, &t, &h, &prev, "genesis hash not yet known");
                h.genesis_hash = gh.clone();
            }
            // a configured step back to a protocol without genesis hashes
            if !p.support_genesis_hash && prev.genesis_hash.0 != [0; 32] {
                judge(c, &t, &h, &prev, "genesis hash no longer supported");
                h.genesis_hash = CryptoHash([0; 32]);
            }
            judge(c, &t, &h, &prev, "nothing");
            c.check(ref_check(&t, &h, &prev).is_ok(), "produced block is invalid", dd);
            c.case(&enc_h(&h), true);

            // another valid or invalid vote by the proposer
            let mut v = a_vote(&mut c.rng, &t, &prev.upgrade_state);
            if c.rng.gen() {
                v.upgrade_approve = false;
            }
            let mut w = h.clone();
            w.upgrade_vote = v.clone();
            if let Ok(s) = ref_vote(&t, &prev.upgrade_state, h.round.0, &v) {
                w.upgrade_state = s;
                c.count("other valid votes", 1);
            }
            judge(c, &t, &w, &prev, "vote");
            let next = if ref_check(&t, &w, &prev).is_ok() && c.rng.gen() { w } else { h.clone() };

            // every field of the child, then of the parent
            for e in gen::block_header_edits() {
                if c.rng.gen_range(0, 3) == 0 {
                    let mut u = h.clone();
                    (e.apply)(&mut c.rng, &mut u);
                    c.state("altered fields", e.field.as_bytes());
                    judge(c, &t, &u, &prev, e.field);
                }
                if c.rng.gen_range(0, 6) == 0 {
                    let mut q = prev.clone();
                    (e.apply)(&mut c.rng, &mut q);
                    // states no chain reaches: deadlines or approvals without a proposal, the end of all rounds
                    let s = &q.upgrade_state;
                    let idle = s.next_protocol.is_none() && (s.next_protocol_approvals, s.next_protocol_vote_before.0, s.next_protocol_switch_on.0) != (0, 0, 0);
                    if idle || q.round.0 > 1 << 61 || s.next_protocol_approvals > 1 << 61 {
                        continue;
                    }
                    judge(c, &t, &h, &q, &format!("previous {}", e.field));
                    let mut u = h.clone();
                    u.branch = header_hash(&q);
                    judge(c, &t, &u, &q, &format!("previous {}, linked", e.field));
                }
            }
            let inc = p.max_timestamp_increment;
            for k in 0..12 {
                let mut u = h.clone();
                let name = match k {
                    0 => { u.timestamp = prev.timestamp.saturating_sub(1); "just before" }
                    1 => { u.timestamp = prev.timestamp; "same time" }
                    2 => { u.timestamp = prev.timestamp.saturating_add(inc); "latest" }
                    3 => { u.timestamp = prev.timestamp.saturating_add(inc).saturating_add(1); "just late" }
                    4 => { u.timestamp = u64::MAX; "end of time" }
                    5 => { u.genesis_id = String::new(); "no genesis id" }
                    6 => { u.genesis_hash = CryptoHash([0; 32]); "no genesis hash" }
                    7 => { u.genesis_hash = CryptoHash(arr32(&mut c.rng)); "other genesis hash" }
                    8 => { u.upgrade_state.current_protocol = *pick(&mut c.rng, &DEPRECATED); "unsupported protocol" }
                    9 => { u.round = prev.round; "same round" }
                    10 => { u.round.0 += 1; "skipped round" }
                    _ => { u.branch = prev.branch.clone(); "link of the parent" }
                };
                judge(c, &t, &u, &prev, name);
            }
            {
                // a parent that names no network
                let mut q = prev.clone();
                let ids = c.rng.gen_range(0, 3);
                if ids != 1 { q.genesis_id = String::new() }
                if ids != 0 { q.genesis_hash = CryptoHash([0; 32]) }
                for k in 0..4 {
                    let mut u = h.clone();
                    if k & 1 == 1 { u.genesis_id = String::new() }
                    if k & 2 == 2 { u.genesis_hash = CryptoHash([0; 32]) }
                    u.branch = header_hash(&q);
                    judge(c, &t, &u, &q, "parent without a network");
                }
            }
            if c.rng.gen_range(0, 10) == 0 {
                let mut q = prev.clone();
                q.upgrade_state.current_protocol = *pick(&mut c.rng, &DEPRECATED);
                let mut u = h.clone();
                u.branch = header_hash(&q);
                judge(c, &t, &u, &q, "previous protocol unsupported");
            }
            prev = next;
            prev.seed = committee::Seed(arr32(&mut c.rng));
            prev.tx_counter = prev.tx_counter.wrapping_add(c.rng.gen_range(0, 100));
        }
        c.sample(json!({"last": jh(&prev)}));
    }
    c.require("blocks produced", 3000);
    c.require("accepted", 5000);
    c.require("rejected", 30_000);
    c.require("distinct rejection reasons", 10);
    c.require("distinct time class", 4);
    c.require("distinct altered fields", 20);
}

// ---- C24 ----------------------------------------------------------------------------------

pub fn c24(c: &mut Ctx) {
    c.rule = "chains of reward states under every protocol version and altered parameters, with realistic and extreme pools, unit totals, rates, residues and levels, stepped in lock step with 128-bit arithmetic".into();
    let n = c.n(200_000, 12_000_000);
    let mut i = 0;
    while i < n && c.in_time(12, 480) {
        i += 1;
        let mut p = params::params(pick(&mut c.rng, &params::ALL).1);
        if c.rng.gen() {
            p.pending_residue_rewards = c.rng.gen();
            p.min_balance = if c.rng.gen() { u64_biased(&mut c.rng) } else { p.min_balance };
            p.rewards_rate_refresh_interval = *pick(&mut c.rng, &[1, 2, 7, 100, 500_000]);
        }
        let extreme = c.rng.gen_range(0, 3) == 0;
        let supply = 10_000_000_000_000_000u64;
        let money = |r: &mut R| if extreme { u64_biased(r) } else { r.gen_range(0, supply) };
        let mut s = gen::rewards_state(&mut c.rng);
        let mut round = c.rng.gen_range(1, 1u64 << 60);
        s.rewards_recalculation_round = Round(round + c.rng.gen_range(0, 4));
        if c.rng.gen_range(0, 8) == 0 {
            // a round that agrees with the coming ones in its low bits only
            s.rewards_recalculation_round.0 = s.rewards_recalculation_round.0.wrapping_add(*pick(&mut c.rng, &[1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 0u64.wrapping_sub(1 << 32), 0u64.wrapping_sub(1 << 16)]));
        }
        if !extreme {
            s.rewards_level = c.rng.gen_range(0, 1_000_000);
            s.rewards_rate = c.rng.gen_range(0, 100_000_000);
            s.rewards_residue = c.rng.gen_range(0, 6_000_000_000);
        }
        let mut pool = money(&mut c.rng);
        let (mut paid, mut into) = (0u128, s.rewards_residue as u128);
        let mut counted = 0;
        let units0: u64 = c.rng.gen_range(1, 6_000_000_000);
        for _ in 0..c.rng.gen_range(1, 14) {
            if c.rng.gen_range(0, 3) == 0 {
                pool = match c.rng.gen_range(0, 5) {
                    0 => p.min_balance,
                    1 => p.min_balance.saturating_add(s.rewards_residue).saturating_sub(c.rng.gen_range(0, 3)),
                    2 => p.min_balance.saturating_add(s.rewards_residue).saturating_add(c.rng.gen_range(0, 2) * p.rewards_rate_refresh_interval),
                    _ => money(&mut c.rng),
                };
            }
            let units = match c.rng.gen_range(0, 8) {
                0 => 0,
                1 => 1,
                2 => u64_biased(&mut c.rng),
                3 => s.rewards_rate.saturating_add(s.rewards_residue).saturating_sub(c.rng.gen_range(0, 3)),
                _ => units0,
            };
            let d = || json!({"state": format!("{:?}", s), "round": round, "pool": pool, "units": units, "min_balance": p.min_balance, "pending_residue": p.pending_residue_rewards, "interval": p.rewards_rate_refresh_interval});
            c.about(&d().to_string());
            c.case(d().to_string().as_bytes(), true);
            let before = s.clone();
            let g = match c.no_panic("next reward state", d, || s.next_state(Round(round), p.clone(), MicroAlgos(pool), units)) {
                Some(g) => g,
                None => break,
            };
            let mut w = s.clone();
            if round == s.rewards_recalculation_round.0 {
                c.count("refreshes", 1);
                let keep = p.min_balance as u128 + if p.pending_residue_rewards { s.rewards_residue as u128 } else { 0 };
                let free = (pool as u128).saturating_sub(keep);
                if free > 0 { c.count("refreshes with money", 1) } else { c.count("refreshes without money", 1) }
                w.rewards_rate = (free / p.rewards_rate_refresh_interval as u128) as u64;
                w.rewards_recalculation_round = Round(round + p.rewards_rate_refresh_interval);
            }
            if units > 0 {
                let all = s.rewards_rate as u128 + s.rewards_residue as u128;
                let level = s.rewards_level as u128 + all / units as u128;
                if all > u64::MAX as u128 || level > u64::MAX as u128 {
                    c.count("overflows", 1);
                } else {
                    w.rewards_level = level as u64;
                    w.rewards_residue = (all % units as u128) as u64;
                    c.count("levels raised", (w.rewards_level > s.rewards_level) as u64);
                    c.check(g.rewards_level >= s.rewards_level
                        && (g.rewards_level - s.rewards_level) as u128 * units as u128 + g.rewards_residue as u128 == all,
                        "money created or lost", || json!({"at": d(), "got": format!("{:?}", g)}));
                    if units == units0 && counted >= 0 {
                        counted += 1;
                        into += s.rewards_rate as u128;
                        paid += (g.rewards_level.wrapping_sub(s.rewards_level)) as u128 * units as u128;
                        c.check(paid + g.rewards_residue as u128 == into, "running total", || json!({"at": d(), "paid": paid.to_string(), "in": into.to_string()}));
                    } else {
                        counted = -1;
                    }
                }
            } else {
                c.count("rounds without units", 1);
            }
            if units != units0 { counted = -1 }
            if w.rewards_level == s.rewards_level && units > 0 && (s.rewards_rate as u128 + s.rewards_residue as u128) > u64::MAX as u128 { counted = -1 }
            let same = g.rewards_level == w.rewards_level && g.rewards_rate == w.rewards_rate && g.rewards_residue == w.rewards_residue
                && g.rewards_recalculation_round == w.rewards_recalculation_round && g.fee_sink == w.fee_sink && g.rewards_pool == w.rewards_pool;
            let f = if g.rewards_rate != w.rewards_rate { "rate" } else if g.rewards_level != w.rewards_level { "level" } else if g.rewards_residue != w.rewards_residue { "residue" } else { "other" };
            c.check(same, &format!("next reward state:{}", f), || json!({"at": d(), "got": format!("{:?}", g), "want": format!("{:?}", w)}));
            c.check(before.rewards_rate == s.rewards_rate && before.rewards_level == s.rewards_level, "current state changed", d);
            s = g;
            round += 1;
            if c.rng.gen_range(0, 4) == 0 {
                s.rewards_recalculation_round = Round(round + c.rng.gen_range(0, 2));
            }
        }
    }
    c.require("refreshes with money", 5000);
    c.require("refreshes without money", 500);
    c.require("levels raised", 5000);
    c.require("overflows", 500);
    c.require("rounds without units", 5000);
}

// ---- C26 ------------------------------------------------------------------------------------

fn ref_encode(p: Option<&ConsensusParams>, h: &BlockHeader, st: &SignedTx, ad: &ApplyData) -> Option<SignedTxInBlock> {
    let p = p?;
    let mut s = SignedTxInBlock { tx: SignedTxWithAD { tx: st.clone(), ad: ad.clone() }, has_genesis_id: false, has_genesis_hash: false };
    if !p.support_signed_tx_in_block {
        return Some(s);
    }
    let x = &mut s.tx.tx.tx.header;
    if !x.genesis_id.is_empty() {
        if x.genesis_id != h.genesis_id {
            return None;
        }
        x.genesis_id = String::new();
        s.has_genesis_id = true;
    }
    if x.genesis_hash.0 != [0; 32] {
        if x.genesis_hash != h.genesis_hash {
            return None;
        }
        x.genesis_hash = CryptoHash([0; 32]);
        s.has_genesis_hash = !p.require_genesis_hash;
    } else if p.require_genesis_hash {
        return None;
    }
    Some(s)
}

fn ref_decode(p: Option<&ConsensusParams>, h: &BlockHeader, s: &SignedTxInBlock) -> Option<SignedTxWithAD> {
    let p = p?;
    let mut o = s.tx.clone();
    if !p.support_signed_tx_in_block {
        return Some(o);
    }
    let x = &mut o.tx.tx.header;
    if !x.genesis_id.is_empty() || x.genesis_hash.0 != [0; 32] || (p.require_genesis_hash && s.has_genesis_hash) {
        return None;
    }
    if s.has_genesis_id {
        x.genesis_id = h.genesis_id.clone();
    }
    if p.require_genesis_hash || s.has_genesis_hash {
        x.genesis_hash = h.genesis_hash.clone();
    }
    Some(o)
}

fn ref_leaf(tx: &Transaction, s: &SignedTxInBlock) -> [u8; 32] {
    let id = refm::h256(&[b"TX", &protocol::encode(tx)]);
    let st = refm::h256(&[b"STIB", &protocol::encode(s)]);
    refm::h256(&[b"TL", &id, &st])
}

fn ref_commit(t: &Table, b: &Block) -> Option<[u8; 32]> {
    let p = t.get(&b.header.upgrade_state.current_protocol)?;
    match p.payset_commit {
        PaysetCommitType::Unsupported => None,
        PaysetCommitType::Flat => {
            let n = b.payset.0.len();
            let mut e = if n < 16 { vec![0x90 | n as u8] } else { vec![0xdc, (n >> 8) as u8, n as u8] };
            for s in &b.payset.0 {
                e.extend(protocol::encode(s));
            }
            Some(refm::h256(&[b"PF", &e]))
        }
        PaysetCommitType::Merkle => {
            let mut l = Vec::new();
            for s in &b.payset.0 {
                l.push(ref_leaf(&ref_decode(Some(p), &b.header, s)?.tx.tx, s));
            }
            Some(refm::array_root(&l))
        }
    }
}

fn groups_by<T: Clone>(v: &[T], id: impl Fn(&T) -> [u8; 32]) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = Vec::new();
    let mut last: Option<[u8; 32]> = None;
    for x in v {
        let g = id(x);
        if last == Some(g) && g != [0; 32] {
            out.last_mut().unwrap().push(x.clone());
        } else {
            out.push(vec![x.clone()]);
        }
        last = Some(g);
    }
    out
}

fn check_block(c: &mut Ctx, t: &Table, b: &Block, what: &str) -> Option<[u8; 32]> {
    let ver = b.header.upgrade_state.current_protocol;
    let p = t.get(&ver);
    let d = || json!({"what": what, "version": ver.to_string(), "genesis_id": b.header.genesis_id, "genesis_hash": hex(&b.header.genesis_hash.0),
        "transactions": b.payset.0.iter().take(4).map(|s| hex(&protocol::encode(s))).collect::<Vec<_>>(), "count": b.payset.0.len()});
    let want = ref_commit(t, b);
    c.about(&d().to_string());
    let got = c.no_panic("commitment", d, || b.payset_commit())?;
    c.count(if want.is_some() { "commitments" } else { "commitments refused" }, 1);
    c.check(got.as_ref().ok().map(|x| x.0) == want, "commitment", || json!({"at": d(), "got": format!("{:?}", got), "want": want.map(|x| hex(&x))}));
    let m = c.no_panic("match", d, || b.verif_contents_match_header())?;
    c.check(m == (want.is_some() && want == Some(b.header.tx_root.0)), "contents against header", d);
    c.count(if m { "matching headers" } else { "mismatching headers" }, 1);

    let dec: Option<Vec<SignedTxWithAD>> = b.payset.0.iter().map(|s| ref_decode(p, &b.header, s)).collect();
    let flat = c.no_panic("decode flat", d, || b.decode_payset_flat())?.ok();
    let empty_ok = b.payset.0.is_empty();
    c.check(flat == dec || empty_ok && flat.as_ref().map_or(true, |x| x.is_empty()), "decoded list", d);
    let gr = c.no_panic("decode groups", d, || b.decode_payset_groups())?.ok();
    let wg = dec.as_ref().map(|v| groups_by(v, |x| x.tx.tx.header.group.0));
    c.check(gr == wg || empty_ok && gr.as_ref().map_or(true, |x| x.is_empty()), "decoded groups", d);
    if let Some(v) = &dec {
        let txs: Vec<SignedTx> = v.iter().map(|x| x.tx.clone()).collect();
        let g = signed_txs_to_group(&txs);
        c.check(g == groups_by(&txs, |x| x.tx.header.group.0), "groups of a list", d);
        c.check(signed_tx_groups_flatten(g.clone()) == txs, "flattened groups", d);
        c.count("groups of more than sixteen", g.iter().filter(|x| x.len() > 16).count() as u64);
        c.count("groups of more than 256", g.iter().filter(|x| x.len() > 256).count() as u64);
        c.count("groups of several", g.iter().filter(|x| x.len() > 1).count() as u64);
    }
    let arr = c.no_panic("transaction array", d, || TxMerkleArray::from_block(b))?;
    c.check(arr.is_ok() == dec.is_some() || empty_ok, "transaction array", d);
    if let (Ok(a), Some(v)) = (&arr, &dec) {
        let ok = a.0.len() == v.len() && a.0.iter().zip(v).zip(&b.payset.0).all(|((e, x), s)| e.tx == x.tx.tx && e.stib == *s && hash_obj(e).0 == ref_leaf(&x.tx.tx, s));
        c.check(ok, "transaction array contents", d);
    }
    let tree = c.no_panic("transaction tree", d, || b.tx_merkle_tree())?;
    c.check(tree.is_ok() == dec.is_some() || empty_ok, "transaction tree", d);
    if let (Ok(tree), Some(v)) = (tree, dec) {
        let leaves: Vec<[u8; 32]> = v.iter().zip(&b.payset.0).map(|(x, s)| ref_leaf(&x.tx.tx, s)).collect();
        c.check(tree.root().0 == refm::array_root(&leaves), "root of the transaction tree", d);
        if !leaves.is_empty() {
            let i = c.rng.gen_range(0, leaves.len());
            let other = arr32(&mut c.rng);
            let r = c.no_panic("proof", d, || {
                let proof = tree.prove(&mut vec![i as u64]).map_err(|_| ())?;
                let one = |h: [u8; 32]| [(i as u64, CryptoHash(h))].iter().cloned().collect::<HashMap<_, _>>();
                let root = CryptoHash(refm::array_root(&leaves));
                let j = (i + 1) % leaves.len();
                let moved: HashMap<u64, CryptoHash> = [(j as u64, CryptoHash(leaves[i]))].iter().cloned().collect();
                Ok::<_, ()>((Tree::verify(&root, one(leaves[i]), &proof).is_ok(), Tree::verify(&root, one(other), &proof).is_ok(),
                    j != i && leaves[j] != leaves[i] && Tree::verify(&root, moved, &proof).is_ok()))
            })?;
            c.count("transaction proofs", 1);
            c.check(r == Ok((true, false, false)), "proof of a transaction", || json!({"at": d(), "position": i, "result": format!("{:?}", r)}));
        }
    }
    want
}

pub fn c26(c: &mut Ctx) {
    c.rule = "blocks under every protocol version (and unsupported ones) with lists of transactions of every kind, matching and mismatching genesis identities, groups and undecodable entries; every list tampered with by edit, swap, removal and insertion".into();
    let t: Table = params::ALL.iter().map(|x| (x.1, params::params(x.1))).collect();
    let n = c.n(12_000, 600_000);
    let mut i = 0;
    while i < n && c.in_time(15, 480) {
        i += 1;
        let ver = if i % 12 == 0 { *pick(&mut c.rng, &DEPRECATED) } else { params::ALL[(i % 25) as usize].1 };
        let p = t.get(&ver);
        let mut h = gen::block_header(&mut c.rng);
        h.upgrade_state.current_protocol = ver;
        h.genesis_id = if c.rng.gen_range(0, 8) == 0 { String::new() } else { format!("{}-{}", pick(&mut c.rng, &["net", "Net", "MAIN"]), c.rng.gen_range(0, 3)) };
        h.genesis_hash = CryptoHash(arr32_biased(&mut c.rng));
        let ids: Vec<[u8; 32]> = (0..2).map(|_| arr32(&mut c.rng)).collect();
        let mut b = Block { header: h.clone(), payset: Payset::default() };
        let long = i % 512 == 100;
        let len = match c.rng.gen_range(0, 8) { _ if long => c.rng.gen_range(520, 700), 0 => 0, 1 => 1, 3 if c.rng.gen_range(0, 60) == 0 => *pick(&mut c.rng, &[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600]), 2 => c.rng.gen_range(15, 20), _ => c.rng.gen_range(2, 9) };
        // in some blocks groups go on for long
        let change = if long { 300 } else { *pick(&mut c.rng, &[1, 1, 8, 40, 10_000]) };
        let mut group = ids[0];
        for _ in 0..len {
            let mut st = gen::signed(&mut c.rng);
            let x = &mut st.tx.header;
            x.genesis_id = match c.rng.gen_range(0, 12) { 0 => "net-0".into(), 1 => gen::near_text(&mut c.rng, &h.genesis_id), 2 | 3 => String::new(), _ => h.genesis_id.clone() };
            x.genesis_hash = match c.rng.gen_range(0, 16) { 0 => CryptoHash(arr32(&mut c.rng)), 1 => CryptoHash(gen::near32(&mut c.rng, &h.genesis_hash.0)), 2 | 3 => CryptoHash([0; 32]), _ => h.genesis_hash.clone() };
            if c.rng.gen_range(0, change) == 0 {
                group = match c.rng.gen_range(0, 3) { 0 => [0; 32], _ => *pick(&mut c.rng, &ids) };
            }
            x.group = CryptoHash(group);
            let ad = gen::apply_data(&mut c.rng, 1);
            let d = || json!({"version": ver.to_string(), "tx": hex(&protocol::encode(&st)), "genesis_id": h.genesis_id, "genesis_hash": hex(&h.genesis_hash.0)});
            c.about(&d().to_string());
            let want = ref_encode(p, &h, &st, &ad);
            let got = match c.no_panic("encode", d, || h.encode_signed_tx(st.clone(), ad.clone())) { Some(g) => g.ok(), None => continue };
            c.case(&protocol::encode(&st), true);
            c.count(if want.is_some() { "transactions encoded" } else { "transactions refused" }, 1);
            c.check(got == want, "encoding for a block", d);
            if let Some(s) = want {
                let back = match c.no_panic("decode", d, || h.decode_signed_tx(&s)) { Some(x) => x.ok(), None => continue };
                let wb = ref_decode(p, &h, &s);
                c.check(back == wb, "decoding from a block", d);
                c.check(wb.map_or(false, |x| x.tx == st && x.ad == ad), "reference round trip", d);
                c.count("round trips", 1);
                b.payset.0.push(s);
            }
        }
        // arbitrary entries, most of them not decodable
        let mut odd = gen::in_block(&mut c.rng);
        if c.rng.gen() { odd.tx.tx.tx.header.genesis_id.clear() }
        if c.rng.gen() { odd.tx.tx.tx.header.genesis_hash = CryptoHash([0; 32]) }
        let d = || json!({"version": ver.to_string(), "tx in block": hex(&protocol::encode(&odd))});
        if let Some(r) = c.no_panic("decode odd", d, || h.decode_signed_tx(&odd)) {
            let w = ref_decode(p, &h, &odd);
            c.count(if w.is_some() { "odd entries decoded" } else { "odd entries refused" }, 1);
            c.check(r.ok() == w, "decoding an arbitrary entry", d);
        }
        let root = check_block(c, &t, &b, "as made");
        if let Some(root) = root {
            b.header.tx_root = CryptoHash(root);
            check_block(c, &t, &b, "header set");
            let mut u = b.clone();
            let k = c.rng.gen_range(0, 6);
            let m = u.payset.0.len();
            let name = match k {
                0 if m > 1 => { let (x, y) = (c.rng.gen_range(0, m), c.rng.gen_range(0, m)); u.payset.0.swap(x, y); "swap" }
                1 if m > 0 => { u.payset.0.remove(c.rng.gen_range(0, m)); "remove" }
                2 if m > 0 => { let s = u.payset.0[c.rng.gen_range(0, m)].clone(); u.payset.0.push(s); "duplicate" }
                3 if m > 0 => { let x = c.rng.gen_range(0, m); u.payset.0[x].tx.ad.closing_amount.0 ^= 1; "apply data" }
                4 if m > 0 => { let x = c.rng.gen_range(0, m); gen::edit_tx(&mut c.rng, &mut u.payset.0[x].tx.tx.tx); "transaction" }
                _ => { u.payset.0.push(odd.clone()); "append" }
            };
            if u.payset.0 != b.payset.0 {
                c.count("tampered lists", 1);
                c.state("tampering", name.as_bytes());
                let r2 = check_block(c, &t, &u, name);
                c.check(r2 != Some(root), "tampering leaves the commitment unchanged", || json!({"tampering": name}));
            }
        } else {
            b.payset.0.push(odd.clone());
            check_block(c, &t, &b, "with odd entry");
        }
        c.sample(json!({"version": ver.to_string(), "transactions": b.payset.0.len(), "root": root.map(|x| hex(&x))}));
    }
    c.require("round trips", 1000);
    c.require("transactions refused", 200);
    c.require("odd entries refused", 100);
    c.require("odd entries decoded", 20);
    c.require("commitments", 400);
    c.require("commitments refused", 60);
    c.require("tampered lists", 200);
    c.require("distinct tampering", 6);
    c.require("transaction proofs", 400);
    c.require("matching headers", 100);
    c.require("groups of several", 200);
    c.require("groups of more than sixteen", 20);
    c.require("groups of more than 256", 3);
}

// ---- C33 ------------------------------------------------------------------------------------

struct G {
    schema: String,
    network: String,
    proto: CV,
    alloc: Vec<(String, String, AccountData)>,
    pool: String,
    sink: String,
    timestamp: u64,
    comment: String,
    dev: bool,
}

impl G {
    fn make(&self) -> VerifGenesis {
        VerifGenesis::new(self.schema.clone(), self.network.clone(), self.proto, self.alloc.clone(), self.pool.clone(), self.sink.clone(), self.timestamp, self.comment.clone(), self.dev)
    }
}

pub fn c33(c: &mut Ctx) {
    c.rule = "generated genesis descriptions and balances under every protocol; the block compared field by field, the description's id, hash, file round trip and sensitivity to every field".into();
    let n = c.n(16_000, 600_000);
    let mut i = 0;
    while i < n && c.in_time(12, 480) {
        i += 1;
        let ver = if i % 15 == 0 { *pick(&mut c.rng, &DEPRECATED) } else { params::ALL[(i % 25) as usize].1 };
        let (sink, pool) = (gen::addr(&mut c.rng), gen::addr(&mut c.rng));
        let mut bal: HashMap<Address, AccountData> = gen::list(&mut c.rng, 5, |r| (gen::addr(r), gen::account_data(r))).into_iter().collect();
        let has_pool = c.rng.gen_range(0, 6) != 0;
        let min = if i % 15 == 0 { 0 } else { params::params(ver).min_balance };
        let mut a = gen::account_data(&mut c.rng);
        a.micro_algos.0 = match c.rng.gen_range(0, 6) { 0 => 0, 1 => min, 2 => min.saturating_sub(1), 3 => min + 500_000, 4 => u64::MAX, _ => c.rng.gen_range(0, 10_000_000_000_000_000) };
        let amount = a.micro_algos.0;
        if has_pool { bal.insert(pool, a); } else { bal.remove(&pool); }
        let ts = u64_biased(&mut c.rng);
        let id = gen::text(&mut c.rng, 12);
        let hash = gen::hash(&mut c.rng);
        let timed = c.rng.gen_range(0, 5) != 0;
        let d = || json!({"version": ver.to_string(), "pool": if has_pool { json!(amount) } else { Value::Null }, "timestamp": ts, "id": id, "hash": hex(&hash.0)});
        c.about(&d().to_string());
        c.case(d().to_string().as_bytes(), true);
        let t0 = now();
        let r = c.no_panic("genesis block", d, || if timed { verif_genesis_block(ver, bal.clone(), sink, pool, ts, &id, hash.clone()) } else { verif_genesis_block_now(ver, bal.clone(), sink, pool, &id, hash.clone()) });
        let t1 = now();
        let ok = has_pool && i % 15 != 0;
        match r {
            Some(Ok(b)) => {
                c.check(ok, "genesis block without rewards pool or protocol", d);
                if ok {
                    c.count("genesis blocks", 1);
                    let p = params::params(ver);
                    let h = &b.header;
                    let mut w = BlockHeader::default();
                    w.round = Round(0);
                    w.seed = committee::Seed(hash.0);
                    w.tx_root = CryptoHash(refm::h256(&[b"PF", &[0x90]]));
                    w.timestamp = if timed { ts } else { h.timestamp };
                    w.genesis_id = id.clone();
                    if p.support_genesis_hash { w.genesis_hash = hash.clone() }
                    w.rewards_state.fee_sink = sink;
                    w.rewards_state.rewards_pool = pool;
                    w.rewards_state.rewards_recalculation_round = Round(p.rewards_rate_refresh_interval);
                    let spend = if p.initial_rewards_rate_calculation { amount.saturating_sub(p.min_balance) } else { amount };
                    w.rewards_state.rewards_rate = spend / p.rewards_rate_refresh_interval;
                    w.upgrade_state.current_protocol = ver;
                    clear(&mut w.upgrade_state);
                    w.upgrade_vote = h.upgrade_vote.clone();
                    c.check(enc_h(h) == enc_h(&w), "genesis block header", || json!({"at": d(), "got": jh(h), "rate": h.rewards_state.rewards_rate, "want": jh(&w), "want rate": w.rewards_state.rewards_rate}));
                    c.check(!h.upgrade_vote.upgrade_approve && h.upgrade_vote.upgrade_delay.0 == 0, "genesis block votes", d);
                    c.check(timed || t0 <= h.timestamp && h.timestamp <= t1, "time of the genesis block", d);
                    c.check(b.payset.0.is_empty(), "transactions in the genesis block", d);
                    c.state("versions", ver.to_string().as_bytes());
                }
            }
            Some(Err(_)) => {
                c.check(!ok, "genesis block refused", d);
                c.count("genesis blocks refused", 1);
            }
            None => {}
        }

        // the description
        let mut g = G {
            schema: gen::text(&mut c.rng, 6), network: gen::text(&mut c.rng, 8), proto: params::ALL[(i % 25) as usize].1,
            alloc: gen::list(&mut c.rng, if i % 64 == 7 { 300 } else { 4 }, |r| (gen::addr(r).to_string(), gen::text(r, 5), gen::account_data(r))),
            pool: pool.to_string(), sink: sink.to_string(), timestamp: ts, comment: gen::text(&mut c.rng, 6), dev: c.rng.gen(),
        };
        let v = g.make();
        let e = v.encode();
        let dg = || json!({"genesis": hex(&e)});
        c.about(&dg().to_string().chars().take(3000).collect::<String>());
        c.check(v.id() == format!("{}-{}", g.network, g.schema), "genesis id", dg);
        c.check(v.hash().0 == refm::h256(&[b"GE", &e]), "genesis hash", dg);
        c.check(g.make().encode() == e, "equal descriptions encode differently", dg);
        let before = v.hash();
        let f = match c.rng.gen_range(0, 12) {
            0 => { g.schema.push('x'); "schema" }
            1 => { g.network.push('x'); "network" }
            2 => { g.proto = params::ALL[((i + 1) % 25) as usize].1; "proto" }
            3 => { g.alloc.push((pool.to_string(), String::new(), AccountData::default())); "allocation" }
            4 => { g.pool = sink.to_string() + "x"; "pool" }
            5 => { g.sink = pool.to_string() + "x"; "sink" }
            6 => { g.timestamp ^= 1; "timestamp" }
            7 => { g.comment.push('x'); "comment" }
            8 => { g.dev = !g.dev; "dev" }
            k => {
                if g.alloc.is_empty() { g.alloc.push((String::new(), String::new(), AccountData::default())); "allocation" }
                else if k == 9 { g.alloc[0].0.push('x'); "allocated address" }
                else if k == 10 { g.alloc[0].1.push('x'); "allocation comment" }
                else { g.alloc[0].2.micro_algos.0 ^= 1; "allocated amount" }
            }
        };
        c.state("changed fields", f.as_bytes());
        c.check(g.make().hash() != before, &format!("genesis hash unchanged:{}", f), dg);

        // files
        std::fs::write("genesis.bin", &e).unwrap();
        match c.no_panic("load", dg, || VerifGenesis::load_from_file("genesis.bin")) {
            Some(Ok(l)) => {
                c.count("files loaded", 1);
                c.check(l.encode() == e && l.id() == v.id() && l.hash() == before, "loaded description differs", dg);
            }
            Some(Err(_)) => c.violation("own file refused", dg()),
            None => {}
        }
        if i % 4 == 0 {
            let bad = match c.rng.gen_range(0, 4) {
                0 => { let _ = std::fs::remove_file("genesis.bin"); "missing".to_owned() }
                1 => { let k = c.rng.gen_range(0, e.len()); std::fs::write("genesis.bin", &e[..k]).unwrap(); format!("cut at {}", k) }
                2 => { let b = bytes(&mut c.rng, 30); std::fs::write("genesis.bin", &b).unwrap(); format!("random {}", hex(&b)) }
                _ => { let _ = std::fs::remove_file("genesis.bin"); std::fs::create_dir("genesis.bin").unwrap(); "directory".to_owned() }
            };
            let d = || json!({"file": bad});
            if let Some(r) = c.no_panic("load bad file", d, || VerifGenesis::load_from_file("genesis.bin").is_ok()) {
                c.check(!r || bad.starts_with("random"), "bad genesis file accepted", d);
                c.count("bad files", 1);
            }
            let _ = std::fs::remove_dir("genesis.bin");
        }
        c.sample(d());
    }
    c.require("genesis blocks", 1500);
    c.require("genesis blocks refused", 300);
    c.require("distinct versions", 25);
    c.require("distinct changed fields", 12);
    c.require("files loaded", 1500);
    c.require("bad files", 300);
}
