//! C25 account rewards and balances, C32 application state arithmetic, C35 protocol table, C36 round arithmetic.
use super::bookkeeping::DEPRECATED;
use super::gen;
use crate::core::*;
use crate::refm::{self, params};
use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::data::basics::*;
use algorsand::data::transactions::*;
use algorsand::protocol::{self, ConsensusVersion as CV};
use rand::Rng;
use serde_json::json;
use std::collections::BTreeMap;

const SUPPLY: u64 = 10_000_000_000_000_000;
const M: u128 = u64::MAX as u128;

fn sat(x: u128) -> u64 {
    x.min(M) as u64
}

fn amount(r: &mut R) -> u64 {
    match r.gen_range(0, 8) {
        0 => 0,
        1 => r.gen_range(0, 3_000_000),
        2 => 1_000_000 * r.gen_range(0, 100),
        3 => (1_000_000 * r.gen_range(1, 100)) - 1,
        4 => SUPPLY - r.gen_range(0, 100),
        5 => 1u64 << r.gen_range(0, 53),
        _ => r.gen_range(0, SUPPLY),
    }
}

fn some_params(r: &mut R) -> ConsensusParams {
    let mut p = params::params(pick(r, &params::ALL).1);
    if r.gen_range(0, 3) == 0 {
        p.reward_unit = *pick(r, &[1, 7, 1000, 1_000_000, 10_000_000]);
        p.min_balance = u64_biased(r);
        p.app_flat_params_min_balance = u64_biased(r);
        p.app_flat_opt_in_min_balance = u64_biased(r);
        p.schema_min_balance_per_entry = u64_biased(r);
        p.schema_uint_min_balance = u64_biased(r);
        p.schema_bytes_min_balance = u64_biased(r);
    }
    p
}

fn ref_schema_cost(p: &ConsensusParams, s: &StateSchema) -> u128 {
    let n = (s.num_uint as u128 + s.num_byte_slice as u128).min(M);
    // each term saturates on its own before the sum does
    (p.schema_min_balance_per_entry as u128 * n).min(M) + (p.schema_uint_min_balance as u128 * s.num_uint as u128).min(M)
        + (p.schema_bytes_min_balance as u128 * s.num_byte_slice as u128).min(M)
}

pub fn c25(c: &mut Ctx) {
    c.rule = "generated accounts of every status with balances up to the total supply, led through rising reward levels; rewards, minimum and normalized balances against 128-bit arithmetic, under every protocol and altered parameters".into();
    // accounts that hold very many things
    for k in [255u64, 256, 256, 257, 300, 1000, 65_536, 65_537] {
        let mut a = gen::account_data(&mut c.rng);
        let p = some_params(&mut c.rng);
        match c.rng.gen_range(0, 3) {
            2 => for x in 0..k { a.app_params.insert(AppIndex(x), gen::app_params(&mut c.rng)); },
            0 => for x in 0..k { a.assets.insert(x, AssetHolding { amount: x, frozen: false }); },
            _ => for x in 0..k { a.app_local_states.insert(AppIndex(x), AppLocalState { schema: Default::default(), key_value: TealKeyValue::verif_new(Default::default()) }); },
        }
        let total = p.min_balance as u128 * (1 + a.assets.len() as u128) + p.app_flat_params_min_balance as u128 * (a.app_params.len() as u128 + a.total_extra_app_pages as u128)
            + p.app_flat_opt_in_min_balance as u128 * a.app_local_states.len() as u128 + ref_schema_cost(&p, &a.total_app_schema);
        if let Some(g) = c.no_panic("minimum balance", || json!(k), || a.verif_min_balance(&p)) {
            c.check(g.0 == sat(total), "minimum balance of many holdings", || json!({"assets": a.assets.len(), "opted in": a.app_local_states.len(), "created": a.app_params.len(), "got": g.0, "want": sat(total)}));
            c.count("accounts with very many holdings", 1);
        }
    }
    let n = c.n(150_000, 6_000_000);
    let mut i = 0;
    while i < n && c.in_time(12, 480) {
        i += 1;
        let p = some_params(&mut c.rng);
        let mut a = gen::account_data(&mut c.rng);
        a.status = *pick(&mut c.rng, &[Status::Offline, Status::Online, Status::Online, Status::NotParticipating]);
        a.micro_algos.0 = amount(&mut c.rng);
        a.rewards_base = c.rng.gen_range(0, 1_000_000);
        if c.rng.gen_range(0, 4) == 0 {
            a.rewarded_micro_algos.0 = u64::MAX - c.rng.gen_range(0, 1 << 40);
        } else {
            a.rewarded_micro_algos.0 = c.rng.gen_range(0, SUPPLY);
        }
        let d = |a: &AccountData| json!({"status": format!("{}", a.status), "micro_algos": a.micro_algos.0, "base": a.rewards_base, "rewarded": a.rewarded_micro_algos.0, "reward_unit": p.reward_unit});
        c.about(&d(&a).to_string());
        c.case(d(&a).to_string().as_bytes(), true);

        // normalized balance and voting stake
        let w = if a.status == Status::Online { (a.micro_algos.0 as u128 * p.reward_unit as u128 / (a.rewards_base as u128 + p.reward_unit as u128)) as u64 } else { 0 };
        if let Some(g) = c.no_panic("normalized balance", || d(&a), || a.verif_normalized_online_balance(&p)) {
            c.check(g == w, "normalized balance", || json!({"account": d(&a), "got": g, "want": w}));
            c.count(if w > 0 { "normalized balances" } else { "normalized to zero" }, 1);
            if a.micro_algos.0 > 18_446_744_073_709 { c.count("normalized balances of large accounts", 1) }
        }
        let stake = if a.status == Status::Online { a.micro_algos.0 } else { 0 };
        c.check(a.voting_stake().0 == stake, "voting stake", || d(&a));
        let kd = if a.vote_key_dilution == 0 { p.default_key_dilution } else { a.vote_key_dilution };
        c.check(a.verif_key_dilution(&p) == kd, "key dilution", || d(&a));

        // minimum balance
        if c.rng.gen_range(0, 3) == 0 {
            a.total_app_schema = StateSchema { num_uint: u64_biased(&mut c.rng), num_byte_slice: u64_biased(&mut c.rng) };
            a.total_extra_app_pages = if c.rng.gen() { u32::MAX } else { c.rng.gen_range(0, 50) };
        }
        let dm = |a: &AccountData| json!({"assets": a.assets.len(), "created": a.app_params.len(), "opted in": a.app_local_states.len(), "uints": a.total_app_schema.num_uint,
            "bytes": a.total_app_schema.num_byte_slice, "pages": a.total_extra_app_pages, "min_balance": p.min_balance, "flat": [p.app_flat_params_min_balance, p.app_flat_opt_in_min_balance],
            "schema": [p.schema_min_balance_per_entry, p.schema_uint_min_balance, p.schema_bytes_min_balance]});
        let total = p.min_balance as u128 * (1 + a.assets.len() as u128) + p.app_flat_params_min_balance as u128 * (a.app_params.len() as u128 + a.total_extra_app_pages as u128)
            + p.app_flat_opt_in_min_balance as u128 * a.app_local_states.len() as u128 + ref_schema_cost(&p, &a.total_app_schema);
        if let Some(g) = c.no_panic("minimum balance", || dm(&a), || a.verif_min_balance(&p)) {
            c.check(g.0 == sat(total), "minimum balance", || json!({"account": dm(&a), "got": g.0, "want": sat(total)}));
            c.count(if total > M { "saturated minimum balances" } else { "minimum balances" }, 1);
        }

        // rewards over rising levels: applied at some of them, only read at the others
        let mut level = a.rewards_base;
        let mut money = a.micro_algos.0;
        for _ in 0..c.rng.gen_range(1, 7) {
            let max_step = (SUPPLY / (money / p.reward_unit).max(1)).min(1_000_000);
            level += match c.rng.gen_range(0, 4) { 0 => 0, 1 => 1.min(max_step), _ => c.rng.gen_range(0, max_step + 1) };
            let dd = || json!({"account": d(&a), "level": level});
            let units = a.micro_algos.0 as u128 / p.reward_unit as u128;
            let due = if a.status == Status::NotParticipating { 0 } else { units * (level - a.rewards_base) as u128 };
            if a.micro_algos.0 as u128 + due > M {
                break;
            }
            let due = due as u64;
            let want = (a.micro_algos.0 + due, a.rewarded_micro_algos.0.wrapping_add(due));
            if let Some((m, rw)) = c.no_panic("money", dd, || a.verif_money(&p, level)) {
                c.check((m.0, rw.0) == want, "money at a level", || json!({"at": dd(), "got": [m.0, rw.0], "want": [want.0, want.1]}));
            }
            if a.status != Status::NotParticipating {
                if let Some(g) = c.no_panic("pending", dd, || a.verif_pending_rewards(&p, a.micro_algos, a.rewards_base, level)) {
                    c.check(g.0 == due, "pending rewards", || json!({"at": dd(), "got": g.0, "want": due}));
                }
                c.count(if due > 0 { "rewards due" } else { "no rewards due" }, 1);
            } else {
                c.count("non-participating accounts", 1);
            }
            if let Some(g) = c.no_panic("update", dd, || a.verif_with_updated_rewards(&p, level)) {
                let mut w = a.clone();
                if a.status != Status::NotParticipating {
                    w.micro_algos.0 = want.0;
                    w.rewarded_micro_algos.0 = want.1;
                    w.rewards_base = level;
                }
                c.check(protocol::encode(&g) == protocol::encode(&w), "account after rewards", || json!({"at": dd(), "got": d(&g), "want": d(&w)}));
                if let Some(h) = c.no_panic("update again", dd, || g.verif_with_updated_rewards(&p, level)) {
                    c.check(protocol::encode(&h) == protocol::encode(&g), "rewards applied twice", dd);
                }
                if c.rng.gen() {
                    a = g;
                    money = a.micro_algos.0;
                }
            }
        }

        // two accounts at the same base are ordered by what they hold
        let mut b = a.clone();
        b.micro_algos.0 = amount(&mut c.rng);
        if let Some((x, y)) = c.no_panic("order", || d(&b), || (a.verif_normalized_online_balance(&p), b.verif_normalized_online_balance(&p))) {
            if a.status == Status::Online {
                let ok = if a.micro_algos <= b.micro_algos { x <= y } else { x >= y };
                c.check(ok && x <= a.micro_algos.0, "normalized balances out of order", || json!([d(&a), d(&b)]));
            }
        }
        c.sample(d(&a));
    }
    c.require("rewards due", 10_000);
    c.require("no rewards due", 1000);
    c.require("non-participating accounts", 5000);
    c.require("normalized balances of large accounts", 3000);
    c.require("saturated minimum balances", 500);
    c.require("minimum balances", 10_000);
}

pub fn c32(c: &mut Ctx) {
    c.rule = "schemas, key/value stores, state deltas and application calls with boundary sizes, against set and 128-bit arithmetic and an independent validity predicate".into();
    let n = c.n(400_000, 20_000_000);
    let mut i = 0;
    while i < n && c.in_time(12, 480) {
        i += 1;
        let p = some_params(&mut c.rng);
        let s = StateSchema { num_uint: u64_biased(&mut c.rng), num_byte_slice: u64_biased(&mut c.rng) };
        let t = StateSchema { num_uint: u64_biased(&mut c.rng), num_byte_slice: u64_biased(&mut c.rng) };
        let d = || json!({"a": [s.num_uint, s.num_byte_slice], "b": [t.num_uint, t.num_byte_slice]});
        c.about(&d().to_string());
        c.case(d().to_string().as_bytes(), true);
        if let Some((add, sub, e, m)) = c.no_panic("schemas", d, || (s.add_schema(t), s.sub_schema(t), s.num_entries(), s.min_balance(&p).0)) {
            let plus = |x: u64, y: u64| sat(x as u128 + y as u128);
            let minus = |x: u64, y: u64| if x > y { x - y } else { 0 };
            c.check(add.num_uint == plus(s.num_uint, t.num_uint) && add.num_byte_slice == plus(s.num_byte_slice, t.num_byte_slice), "sum of schemas", d);
            c.check(sub.num_uint == minus(s.num_uint, t.num_uint) && sub.num_byte_slice == minus(s.num_byte_slice, t.num_byte_slice), "difference of schemas", d);
            c.check(e == plus(s.num_uint, s.num_byte_slice), "entries of a schema", d);
            c.check(m == sat(ref_schema_cost(&p, &s)), "minimum balance of a schema", d);
            c.count("schema operations", 4);
            if s.num_uint.checked_add(t.num_uint).is_none() { c.count("saturated sums", 1) }
            if s.num_uint < t.num_uint { c.count("saturated differences", 1) }
        }

        // stored contents
        let kv: BTreeMap<String, TealValue> = if c.rng.gen_range(0, 100) == 0 {
            (0..c.rng.gen_range(200, 700)).map(|i| (format!("k{}", i), gen::teal_value(&mut c.rng))).collect()
        } else {
            gen::list(&mut c.rng, 12, |r| (gen::text(r, 6), gen::teal_value(r))).into_iter().collect()
        };
        let u = kv.values().filter(|v| v.teal_type == TealType::Uint).count() as u64;
        let b = kv.len() as u64 - u;
        let st = TealKeyValue::verif_new(kv.clone().into_iter().collect());
        let dk = || json!({"uints": u, "bytes": b});
        if let Some(g) = c.no_panic("counts", dk, || st.to_state_schema()) {
            c.check(g.num_uint == u && g.num_byte_slice == b, "counts of stored values", || json!({"want": dk(), "got": [g.num_uint, g.num_byte_slice]}));
            c.count("stores counted", 1);
        }
        for v in kv.values() {
            let vd = v.to_value_delta();
            let uint = v.teal_type == TealType::Uint;
            let ok = if uint { vd.action == DeltaAction::SetUint && vd.uint == v.uint && vd.bytes.is_empty() } else { vd.action == DeltaAction::SetBytes && vd.bytes == v.bytes && vd.uint == 0 };
            let back = vd.verif_to_teal_value();
            let ok = ok && back.map_or(false, |x| x.teal_type == v.teal_type && if uint { x.uint == v.uint && x.bytes.is_empty() } else { x.bytes == v.bytes && x.uint == 0 });
            c.check(ok, "value to delta and back", || json!(format!("{:?} {} {}", v.teal_type, hex(&v.bytes), v.uint)));
            let shown = if uint { v.uint.to_string() } else { hex(&v.bytes) };
            c.check(v.to_string() == shown, "shown value", || json!({"got": v.to_string(), "want": shown}));
        }

        // recorded changes
        let near = |r: &mut R, m: u32| match r.gen_range(0, 5) { 0 => 0, 1 => m as usize, 2 => m as usize + 1, 3 => (m as usize).saturating_sub(1), _ => r.gen_range(0, m as usize + 2) };
        let mut q = p.clone();
        if c.rng.gen() {
            q.max_app_key_len = *pick(&mut c.rng, &[0, 1, 5, 64]);
            q.max_app_bytes_value_len = *pick(&mut c.rng, &[0, 1, 7, 128]);
            q.max_app_sum_key_value_lens = *pick(&mut c.rng, &[0, 3, 10, 128]);
        }
        let mut es: BTreeMap<String, ValueDelta> = BTreeMap::new();
        for _ in 0..c.rng.gen_range(0, 3) {
            let kl = near(&mut c.rng, q.max_app_key_len);
            let two = c.rng.gen_range(0, 5) == 0;
            // lengths count bytes, not characters
            let key: String = if two { (0..kl / 2).map(|_| 'é').chain(std::iter::repeat('k').take(kl % 2)).collect() } else { (0..kl).map(|_| (b'a' + c.rng.gen_range(0, 26)) as char).collect() };
            let bl = if c.rng.gen() { (q.max_app_sum_key_value_lens as usize + c.rng.gen_range(0, 3)).saturating_sub(kl + 1) } else { near(&mut c.rng, q.max_app_bytes_value_len) };
            let bl = bl.min(300);
            let v = ValueDelta { action: *pick(&mut c.rng, &[DeltaAction::SetBytes, DeltaAction::SetBytes, DeltaAction::SetUint, DeltaAction::Delete]), bytes: bytes(&mut c.rng, bl), uint: u64_biased(&mut c.rng) };
            es.insert(key, v);
        }
        // one faulty entry anywhere among many
        if c.rng.gen_range(0, 20) == 0 {
            let (kl, bl, sum) = (q.max_app_key_len as usize, q.max_app_bytes_value_len as usize, q.max_app_sum_key_value_lens as usize);
            for i in 0..c.rng.gen_range(2, 300) {
                let key = format!("{}", i);
                if key.len() > kl { continue }
                let room = bl.min(sum.saturating_sub(key.len())).min(6);
                if key.len() <= sum { es.insert(key, ValueDelta { action: DeltaAction::SetBytes, bytes: bytes(&mut c.rng, room), uint: 0 }); }
            }
            c.count("large changes", 1);
        }
        let want = (es.is_empty() || q.max_app_key_len > 0) && es.iter().all(|(k, v)| {
            k.len() <= q.max_app_key_len as usize
                && (v.action != DeltaAction::SetBytes || v.bytes.len() <= q.max_app_bytes_value_len as usize && k.len() + v.bytes.len() <= q.max_app_sum_key_value_lens as usize)
        });
        let sd = StateDelta::verif_new(es.clone().into_iter().collect());
        let ds = || json!({"entries": es.iter().map(|(k, v)| json!([k.len(), v.bytes.len(), match v.action { DeltaAction::SetBytes => "set bytes", DeltaAction::SetUint => "set uint", _ => "delete" }])).collect::<Vec<_>>(),
            "limits": [q.max_app_key_len, q.max_app_bytes_value_len, q.max_app_sum_key_value_lens]});
        if let Some(g) = c.no_panic("delta validity", ds, || sd.is_valid(q.clone())) {
            c.check(g == want, "validity of a state change", || json!({"at": ds(), "got": g}));
            c.count(if want { "valid changes" } else { "invalid changes" }, 1);
            if want && !es.is_empty() { c.count("valid non-empty changes", 1) }
        }

        // references of a call
        let pool: Vec<Address> = (0..3).map(|_| gen::addr(&mut c.rng)).collect();
        let sender = *pick(&mut c.rng, &pool);
        let mut f = gen::app_call(&mut c.rng);
        f.accounts = gen::list(&mut c.rng, 5, |r| *pick(r, &pool));
        f.application_id = AppIndex(c.rng.gen_range(0, 4));
        f.foreign_apps = gen::list(&mut c.rng, 5, |r| AppIndex(r.gen_range(0, 4)));
        let all: Vec<Address> = std::iter::once(sender).chain(f.accounts.iter().cloned()).collect();
        let apps: Vec<AppIndex> = std::iter::once(f.application_id).chain(f.foreign_apps.iter().cloned()).collect();
        let df = || json!({"accounts": f.accounts.len(), "apps": apps.iter().map(|a| a.0).collect::<Vec<_>>()});
        for k in 0..all.len().max(apps.len()) as u64 + 2 {
            let r = c.no_panic("reference", df, || (f.verif_address_by_index(k, sender), f.app_id_by_index(k)));
            if let Some((a, x)) = r {
                c.check(a.ok() == all.get(k as usize).cloned(), "account at an index", || json!({"at": df(), "index": k}));
                c.check(x.ok() == apps.get(k as usize).cloned(), "application at an index", || json!({"at": df(), "index": k}));
                c.count("references resolved", 2);
            }
        }
        for k in [u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63].iter() {
            if let Some((a, x)) = c.no_panic("far reference", df, || (f.verif_address_by_index(*k, sender).is_err(), f.app_id_by_index(*k).is_err())) {
                c.check(a && x, "far index resolved", || json!({"index": k}));
            }
        }
        for a in &pool {
            let g = f.index_by_address(*a, sender).ok();
            c.check(g == all.iter().position(|x| x == a).map(|x| x as u64), "index of an account", df);
        }
        for k in 0..5 {
            let g = f.index_by_app_id(AppIndex(k)).ok();
            c.check(g == apps.iter().position(|x| x.0 == k).map(|x| x as u64), "index of an application", df);
        }
        // the account of an application
        let id = u64_biased(&mut c.rng);
        c.check(AppIndex(id).verif_address().0 == refm::h256(&[b"appID", &id.to_be_bytes()]), "address of an application", || json!(id));
        c.sample(json!({"schemas": d(), "change": ds(), "call": df()}));
    }
    c.require("saturated sums", 500);
    c.require("saturated differences", 5000);
    c.require("large changes", 10);
    c.require("valid non-empty changes", 3000);
    c.require("invalid changes", 3000);
    c.require("references resolved", 50_000);
}

pub fn c35(c: &mut Ctx) {
    c.rule = "the table in force, compared version by version and field by field with the published parameters; upgrade paths followed to their end".into();
    let all: Vec<CV> = params::ALL.iter().map(|x| x.1).chain(DEPRECATED.iter().cloned()).collect();
    for v in &all {
        c.about(&v.to_string());
        let d = || json!(v.to_string());
        let got = match c.no_panic("table", d, || CONSENSUS.0.get(v)) { Some(g) => g, None => return };
        if DEPRECATED.contains(v) {
            c.check(got.is_none(), "deprecated version supported", d);
            c.count("deprecated versions", 1);
            continue;
        }
        let got = match got { Some(g) => g, None => { c.violation("version missing", d()); continue } };
        let (g, w) = (serde_json::to_value(got).unwrap(), serde_json::to_value(params::params(*v)).unwrap());
        for (k, x) in w.as_object().unwrap() {
            c.case(format!("{} {}", v, k).as_bytes(), true);
            c.count("parameters", 1);
            c.state("parameter names", k.as_bytes());
            c.check(g.get(k) == Some(x), &format!("parameter {}", k), || json!({"version": v.to_string(), "got": g.get(k), "want": x}));
        }
        c.count("versions", 1);
        // invariants any table must have
        let p = got;
        c.check(p.upgrade_threshold <= p.upgrade_vote_rounds && p.min_upgrade_wait_rounds <= p.max_upgrade_wait_rounds, "upgrade rule out of order", d);
        for (s, t) in [(p.soft_committee_size, p.soft_committee_threshold), (p.cert_committee_size, p.cert_committee_threshold), (p.next_committee_size, p.next_committee_threshold),
            (p.late_committee_size, p.late_committee_threshold), (p.redo_committee_size, p.redo_committee_threshold), (p.down_committee_size, p.down_committee_threshold)].iter() {
            c.check(s / 2 < *t && t < s, "committee threshold not between half and the whole", d);
        }
        // every path of approved upgrades ends, in supported versions only
        let mut seen = vec![*v];
        let mut at = vec![*v];
        while let Some(x) = at.pop() {
            for (y, delay) in &CONSENSUS.0[&x].approved_upgrades {
                let q = &CONSENSUS.0[&x];
                c.count("upgrade steps", 1);
                c.check(CONSENSUS.0.contains_key(y), "approved upgrade to an unsupported version", d);
                c.check(*delay >= q.min_upgrade_wait_rounds && *delay <= q.max_upgrade_wait_rounds, "approved upgrade with a delay out of range", d);
                c.check(y != v, "upgrades form a loop", d);
                if CONSENSUS.0.contains_key(y) && !seen.contains(y) {
                    seen.push(*y);
                    at.push(*y);
                }
            }
        }
        c.check(*v == CV::Future || seen.contains(&protocol::CURRENT_CONSENSUS_VERSION), "no upgrade path to the current version", d);
    }
    c.check(CONSENSUS.0.len() == params::ALL.len(), "number of versions", || json!(CONSENSUS.0.len()));
    c.check(protocol::CURRENT_CONSENSUS_VERSION == CV::V30 && CV::default() == CV::V30, "current version", || json!(protocol::CURRENT_CONSENSUS_VERSION.to_string()));
    let names: std::collections::BTreeSet<String> = all.iter().map(|v| v.to_string()).collect();
    c.check(names.len() == all.len(), "two versions with one name", || json!(names.len()));
    c.require("versions", 25);
    c.require("parameters", 2400);
    c.require("deprecated versions", 7);
}

pub fn c36(c: &mut Ctx) {
    c.rule = "rounds and dilutions at and around multiples and at the ends of the number range, against 128-bit arithmetic".into();
    let n = c.n(400_000, 20_000_000);
    let mut i = 0;
    while i < n && c.in_time(10, 300) {
        i += 1;
        let k = u64_biased(&mut c.rng).max(1);
        let x = match c.rng.gen_range(0, 4) {
            0 => k.saturating_mul(c.rng.gen_range(0, 1000)),
            1 => k.saturating_mul(c.rng.gen_range(0, 1000)).saturating_add(c.rng.gen_range(0, 3)),
            2 => k.saturating_mul(c.rng.gen_range(0, 1000)).saturating_sub(c.rng.gen_range(0, 3)),
            _ => u64_biased(&mut c.rng),
        };
        let y = u64_biased(&mut c.rng);
        let d = || json!({"round": x, "by": k, "other": y});
        c.case(d().to_string().as_bytes(), true);
        if i % 64 == 0 { c.about(&d().to_string()) }
        if let Some(id) = c.no_panic("key id", d, || Round(x).ots_id(k)) {
            c.check(id.offset < k && id.batch as u128 * k as u128 + id.offset as u128 == x as u128, "key of a round", d);
            c.count("key ids", 1);
            if x < u64::MAX {
                let nx = Round(x + 1).ots_id(k);
                let ok = (nx.batch, nx.offset) > (id.batch, id.offset) && (nx.batch == id.batch || nx.batch == id.batch + 1 && nx.offset == 0 && id.offset == k - 1);
                c.check(ok, "keys of successive rounds", d);
            }
        }
        if let Some(g) = c.no_panic("difference", d, || Round(x).verif_sub_capped(Round(y)).0) {
            c.check(g == if x > y { x - y } else { 0 }, "capped difference", d);
            c.count(if x > y { "differences" } else { "capped differences" }, 1);
        }
        let up = (x as u128 + k as u128 - 1) / k as u128 * k as u128;
        if up <= M {
            if let Some(g) = c.no_panic("rounding", d, || Round(x).verif_round_up_to_multiple_of(Round(k)).0) {
                c.check(g as u128 == up, "rounded up", || json!({"at": d(), "got": g, "want": up.to_string()}));
                c.count(if x % k == 0 { "exact multiples" } else { "rounded" }, 1);
            }
        }
        c.sample(d());
    }
    c.require("key ids", 100_000);
    c.require("capped differences", 10_000);
    c.require("exact multiples", 10_000);
    c.require("rounded", 10_000);
}
