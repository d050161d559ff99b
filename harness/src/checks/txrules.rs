//! C19 well-formedness, C20 liveness and touched accounts, C21 group fees and group ids.
use super::gen;
use crate::core::*;
use crate::refm::{self, params};
use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::{CryptoHash, VrfPublicKey};
use algorsand::data::basics::*;
use algorsand::data::signed_tx_group::verif_signed_group_id;
use algorsand::data::transactions::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

pub fn cc_sender() -> Address {
    Address(refm::h256(&[b"special_addr", b"CompactCertSender"]))
}

/// A bound and its neighbourhood.
fn around(r: &mut R, max: u64) -> u64 {
    match r.gen_range(0, 8) {
        0 => 0,
        1 => 1,
        2 => max.saturating_sub(1),
        3 | 4 => max,
        5 => max.saturating_add(1),
        6 => max.saturating_add(r.gen_range(2, 20)),
        _ => r.gen_range(0, max.saturating_add(1).max(1)),
    }
}

/// A length near its bound, now and then too long by a power of two.
fn len_around(r: &mut R, max: u32) -> usize {
    let n = around(r, max as u64) as usize;
    match r.gen_range(0, 400) {
        0 => 65536 + n % 65536,
        1..=24 => n + 256,
        25 => n + 1024 * r.gen_range(1, 9usize),
        _ => n,
    }
}

/// Makes two of the 32-byte values equal (addresses, hashes, the lease).
fn coincide(r: &mut R, tx: &mut Transaction, spec: &mut SpecialAddresses) {
    let h = &mut tx.header;
    let mut all: Vec<&mut [u8; 32]> = vec![
        &mut h.sender.0, &mut h.rekey_to.0, &mut h.group.0, &mut h.genesis_hash.0, &mut h.lease,
        &mut spec.fee_sink.0, &mut spec.rewards_pool.0,
    ].into_iter().collect();
    match &mut tx.fields {
        TxFields::Payment(f) => {
            all.push(&mut f.receiver.0);
            if let Some(a) = f.close_remainder_to.as_mut() {
                all.push(&mut a.0);
            }
        }
        TxFields::AssetConfig(f) => {
            let a = &mut f.asset_params;
            all.extend(vec![&mut a.manager.0, &mut a.reserve.0, &mut a.freeze.0, &mut a.clawback.0, &mut a.metadata_hash]);
        }
        TxFields::AssetTransfer(f) => all.extend(vec![&mut f.asset_sender.0, &mut f.asset_receiver.0, &mut f.asset_close_to.0]),
        TxFields::AssetFreeze(f) => all.push(&mut f.freeze_account.0),
        TxFields::AppCall(f) => all.extend(f.accounts.iter_mut().take(4).map(|a| &mut a.0)),
        _ => {}
    }
    let (i, j) = (r.gen_range(0, all.len()), r.gen_range(0, all.len()));
    let v = *all[i];
    *all[j] = v;
    if let TxFields::Payment(f) = &mut tx.fields {
        if f.close_remainder_to == Some(Address([0; 32])) {
            f.close_remainder_to = None;
        }
    }
}

/// All rules this transaction breaks, by the name of the error for it.
fn violated(tx: &Transaction, spec: &SpecialAddresses, p: &ConsensusParams) -> BTreeSet<&'static str> {
    let mut v = BTreeSet::new();
    let mut bad = |cond: bool, name: &'static str| {
        if cond {
            v.insert(name);
        }
    };
    let h = &tx.header;
    let zero = Address([0; 32]);
    match &tx.fields {
        TxFields::Payment(f) => {
            bad(f.close_remainder_to == Some(h.sender), "InvalidPayment");
            if h.sender == spec.fee_sink {
                bad(f.receiver != spec.rewards_pool, "InvalidPayment");
                bad(f.close_remainder_to.is_some(), "InvalidPayment");
            }
        }
        TxFields::Keyreg(f) => {
            let nk = f.vote_pk.to_bytes() == [0; 32];
            // an all-default key is what "not set" means for either key
            let nk = nk || f.vote_pk == Default::default();
            let ns = f.selection_pk == VrfPublicKey::default();
            let nd = f.vote_key_dilution == 0;
            if p.enable_keyreg_coherency_check {
                bad(f.vote_first > f.vote_last, "KeyregFirstVotingRoundGreaterThanLastVotingRound");
                bad(!(nk == ns && ns == nd), "KeyregNonCoherentVotingKeys");
                if nd {
                    bad(f.vote_first.0 != 0 || f.vote_last.0 != 0, "KeyregOfflineTransactionHasVotingRounds");
                } else {
                    bad(f.vote_last.0 == 0, "KeyregGoingOnlineWithZeroVoteLast");
                    bad(f.vote_first.0 as u128 > h.last_valid.0 as u128 + 1, "KeyregGoingOnlineWithFirstVoteAfterLastValid");
                }
            }
            if f.nonparticipation {
                bad(!p.support_become_non_participating_transactions, "KeyregUnsupportedSwitchToNonParticipating");
                bad(!nk && !ns, "KeyregGoingOnlineWithNonParticipating");
            }
        }
        TxFields::AssetConfig(_) | TxFields::AssetTransfer(_) | TxFields::AssetFreeze(_) => bad(!p.asset, "AssetTxsNotSupported"),
        TxFields::AppCall(f) => {
            bad(!p.application, "AppTxsNotSupported");
            let create = f.application_id.0 == 0;
            let update = f.on_completion == OnCompletion::UpdateApplicationOC;
            let (a, s) = (f.approval_program.len() as u64, f.clear_state_program.len() as u64);
            bad(!create && !update && a + s > 0, "ChangeProgramWithoutUpdate");
            let any = |x: &StateSchema| x.num_uint != 0 || x.num_byte_slice != 0;
            bad(!create && (any(&f.local_state_schema) || any(&f.global_state_schema)), "ChangeAppStateSchema");
            bad(!create && f.extra_program_pages != 0, "ChangeExtraProgramPages");
            bad(f.application_args.len() as u64 > p.max_app_args as u64, "TooManyAppArgs");
            bad(f.application_args.iter().map(|a| a.len() as u64).sum::<u64>() > p.max_app_total_arg_len as u64, "AppArgsTotalTooLong");
            let (na, np, ns) = (f.accounts.len() as u64, f.foreign_apps.len() as u64, f.foreign_assets.len() as u64);
            bad(na > p.max_app_tx_accounts as u64, "AccountsTooLong");
            bad(np > p.max_app_tx_foreign_apps as u64, "ForeignAppTooLong");
            bad(ns > p.max_app_tx_foreign_assets as u64, "ForeignAssetsTooLong");
            bad(na + np + ns > p.max_app_total_tx_references as u64, "TooManyReferences");
            bad(f.extra_program_pages > p.max_extra_app_program_pages, "TooManyExtraProgramPages");
            let extra = if create {
                f.extra_program_pages as u64
            } else if p.enable_extra_pages_on_app_update {
                p.max_extra_app_program_pages as u64
            } else {
                0
            };
            let each = (1 + extra) * p.max_app_program_len as u64;
            let both = (1 + extra) * p.max_app_total_program_len as u64;
            bad(a > each, "ApprovalProgramTooLong");
            bad(s > each, "ClearStateProgramTooLong");
            bad(a + s > both, "AppProgramsTooLong");
            let entries = |x: &StateSchema| x.num_uint as u128 + x.num_byte_slice as u128;
            bad(entries(&f.local_state_schema) > p.max_local_schema_entries as u128, "LocalStateSchemaTooLarge");
            bad(entries(&f.global_state_schema) > p.max_global_schema_entries as u128, "GlobalStateSchemaTooLarge");
        }
        TxFields::CompactCert(_) => {
            bad(p.compact_cert_rounds == 0, "CompactcertTxsNotSupported");
            bad(h.sender != cc_sender(), "CCInvalidSender");
            bad(h.fee.0 != 0, "CCNonZeroFee");
            bad(!h.note.is_empty(), "CCNonEmptyNote");
            bad(h.group.0 != [0; 32], "CCNonZeroGroup");
            bad(h.rekey_to != zero, "CCNonZeroRekey");
            bad(h.lease != [0; 32], "CCNonZeroLease");
        }
    }
    let cert = matches!(tx.fields, TxFields::CompactCert(_));
    bad(!p.enable_fee_pooling && !cert && h.fee.0 < p.min_tx_fee, "FeeLessThanMin");
    bad(h.last_valid < h.first_valid, "BadValidityRange");
    bad(h.last_valid >= h.first_valid && h.last_valid.0 - h.first_valid.0 > p.max_tx_life, "ExcessiveValidityRange");
    bad(h.note.len() as u64 > p.max_tx_note_bytes as u64, "NoteTooBig");
    if let TxFields::AssetConfig(f) = &tx.fields {
        let a = &f.asset_params;
        bad(a.asset_name.len() as u64 > p.max_asset_name_bytes as u64, "AssetNameTooBig");
        bad(a.unit_name.len() as u64 > p.max_asset_unit_name_bytes as u64, "AssetUnitNameTooBig");
        bad(a.url.len() as u64 > p.max_asset_url_bytes as u64, "AssetUrlTooBig");
        bad(a.decimals > p.max_asset_decimals, "AssetDecimalsTooHigh");
    }
    bad(h.sender == spec.rewards_pool, "SenderIsRewardsPool");
    bad(h.sender == zero, "ZeroSender");
    bad(!p.support_transaction_leases && h.lease != [0; 32], "LeasesNotSupported");
    bad(!p.support_tx_groups && h.group.0 != [0; 32], "GroupsNotSupported");
    bad(!p.support_rekeying && h.rekey_to != zero, "RekeyingNotSupported");
    v
}

/// A transaction meant to be valid under `p` (the reference has the last word).
fn valid(r: &mut R, p: &ConsensusParams, kind: usize) -> Transaction {
    let first = match r.gen_range(0, 6) {
        0 => 0,
        1 => u64::MAX - r.gen_range(0, 3000),
        _ => r.gen_range(1, 1 << 40),
    };
    let life = around(r, p.max_tx_life).min(p.max_tx_life);
    let mut h = Header {
        sender: Address(arr32(r)),
        fee: MicroAlgos(p.min_tx_fee + if r.gen() { 0 } else { r.gen_range(0, 5000) }),
        first_valid: Round(first),
        last_valid: Round(first.saturating_add(life)),
        ..Default::default()
    };
    if r.gen() {
        let n = len_around(r, p.max_tx_note_bytes).min(p.max_tx_note_bytes as usize);
        h.note = bytes(r, n);
    }
    if r.gen() {
        h.genesis_hash = CryptoHash(arr32(r));
    }
    let fields = match kind {
        0 => TxFields::Payment(PaymentFields {
            receiver: Address(arr32(r)),
            amount: MicroAlgos(u64_biased(r)),
            close_remainder_to: if r.gen_range(0, 3) == 0 { Some(Address(arr32(r))) } else { None },
        }),
        1 => {
            let online = r.gen();
            let span = r.gen_range(0, 4_000_000u64);
            let vf = if online { *pick(r, &[0, 1, h.first_valid.0, h.last_valid.0]) } else { 0 };
            TxFields::Keyreg(KeyregFields {
                vote_pk: if online { gen::keypair(r).public } else { Default::default() },
                selection_pk: if online { algorsand::crypto::VrfKeypair::from_seed(arr32(r)).public() } else { Default::default() },
                vote_first: Round(vf),
                vote_last: Round(if online { vf.saturating_add(span).max(1) } else { 0 }),
                vote_key_dilution: if online { r.gen_range(1, 20_000) } else { 0 },
                nonparticipation: !online && p.support_become_non_participating_transactions && r.gen(),
            })
        }
        2 => {
            let mut a = gen::asset_params(r);
            a.asset_name.clear();
            a.unit_name.clear();
            a.url.clear();
            a.decimals = 0;
            TxFields::AssetConfig(AssetConfigFields { config_asset: u64_biased(r), asset_params: a })
        }
        3 | 4 => gen::fields(r, kind),
        5 => {
            let create: bool = r.gen();
            let update = !create && r.gen();
            let mut f = AppCallFields {
                application_id: AppIndex(if create { 0 } else { r.gen_range(1, 1 << 50) }),
                on_completion: if update { OnCompletion::UpdateApplicationOC } else { gen::on_completion(r) },
                ..Default::default()
            };
            if create {
                f.extra_program_pages = r.gen_range(0, p.max_extra_app_program_pages.min(20) + 1);
            }
            if create || f.on_completion == OnCompletion::UpdateApplicationOC {
                f.approval_program = vec![1; r.gen_range(0, 500)];
                f.clear_state_program = vec![1; r.gen_range(0, 500)];
            }
            TxFields::AppCall(f)
        }
        _ => {
            h = Header { sender: cc_sender(), first_valid: h.first_valid, last_valid: h.last_valid, ..Default::default() };
            gen::fields(r, 6)
        }
    };
    Transaction { header: h, fields }
}

fn ascii(r: &mut R, n: usize) -> String {
    // mostly one byte per character, sometimes two: limits are in bytes
    if n >= 2 && r.gen_range(0, 4) == 0 {
        let mut s: String = std::iter::repeat('é').take(n / 2).collect();
        if n % 2 == 1 {
            s.push('x');
        }
        return s;
    }
    // or of characters that are easily taken for nothing
    let ch = *pick(r, &['x', 'x', 'x', ' ', '\0', '\n', '0']);
    let mut s: String = std::iter::repeat(ch).take(n).collect();
    if r.gen() && n > 2 {
        s.replace_range(n / 2..n / 2 + 1, "y");
    }
    s
}

fn filler(r: &mut R, n: usize) -> Vec<u8> {
    match r.gen_range(0, 4) {
        0 => vec![0; n],
        1 => vec![b' '; n],
        2 => (0..n).map(|i| i as u8).collect(),
        _ => vec![7; n],
    }
}

fn mutate(r: &mut R, tx: &mut Transaction, spec: &SpecialAddresses, p: &ConsensusParams) -> &'static str {
    if r.gen() {
        return mutate_fields(r, tx, spec, p);
    }
    let h = &mut tx.header;
    match r.gen_range(0, 11) {
        0 => { h.fee = MicroAlgos(around(r, p.min_tx_fee)); "fee" }
        1 => { h.last_valid = Round(h.first_valid.0.saturating_add(around(r, p.max_tx_life))); "window" }
        2 => { h.last_valid = Round(h.first_valid.0.saturating_sub(r.gen_range(0, 3))); "window end" }
        3 => { h.first_valid = Round(u64_biased(r)); h.last_valid = Round(u64_biased(r)); "window random" }
        4 => { let n = len_around(r, p.max_tx_note_bytes); h.note = filler(r, n); "note" }
        5 => { h.sender = *pick(r, &[Address([0; 32]), spec.fee_sink, spec.rewards_pool, cc_sender()]); "sender" }
        6 => { h.group = CryptoHash(arr32_biased(r)); "group" }
        7 => { h.lease = arr32_biased(r); "lease" }
        8 => { h.rekey_to = gen::addr(r); "rekey" }
        9 => { h.fee = MicroAlgos(u64_biased(r)); "fee random" }
        _ => { h.genesis_id = "net-1".into(); "genesis id" }
    }
}

fn mutate_fields(r: &mut R, tx: &mut Transaction, spec: &SpecialAddresses, p: &ConsensusParams) -> &'static str {
    let sender = tx.header.sender;
    let last = tx.header.last_valid.0;
    match &mut tx.fields {
        TxFields::Payment(f) => match r.gen_range(0, 5) {
            0 => { f.close_remainder_to = Some(sender); "close to sender" }
            1 => { f.close_remainder_to = if r.gen() { None } else { Some(Address(arr32(r))) }; "close" }
            2 => { f.receiver = spec.rewards_pool; "receiver pool" }
            3 => { tx.header.sender = spec.fee_sink; if r.gen() { f.receiver = spec.rewards_pool; f.close_remainder_to = None; } "fee sink spends" }
            _ => { f.receiver = sender; "receiver sender" }
        },
        TxFields::Keyreg(f) => match r.gen_range(0, 9) {
            0 => { f.vote_pk = gen::pk(r); "vote key" }
            1 => { f.selection_pk = gen::vrf_pk(r); "selection key" }
            2 => { f.vote_key_dilution = *pick(r, &[0, 1, 10_000]); "dilution" }
            3 => { f.vote_first = Round(u64_biased(r)); "vote first" }
            4 => { f.vote_last = Round(u64_biased(r)); "vote last" }
            5 => { f.nonparticipation = !f.nonparticipation; "nonparticipation" }
            6 => { f.vote_first = Round(around(r, last.saturating_add(1))); f.vote_last = Round(f.vote_first.0.max(f.vote_last.0)); "vote first near last valid" }
            7 => { f.vote_first = Round(f.vote_last.0.saturating_add(1)); "vote range empty" }
            _ => { std::mem::swap(&mut f.vote_first, &mut f.vote_last); "vote range swapped" }
        },
        TxFields::AssetConfig(f) => {
            let a = &mut f.asset_params;
            match r.gen_range(0, 4) {
                0 => { let n = len_around(r, p.max_asset_name_bytes); a.asset_name = ascii(r, n); "asset name" }
                1 => { let n = len_around(r, p.max_asset_unit_name_bytes); a.unit_name = ascii(r, n); "unit name" }
                2 => { let n = len_around(r, p.max_asset_url_bytes); a.url = ascii(r, n); "url" }
                _ => { a.decimals = if r.gen_range(0, 8) == 0 { u32::MAX } else { around(r, p.max_asset_decimals as u64) as u32 }; "decimals" }
            }
        }
        TxFields::AppCall(f) => match r.gen_range(0, 14) {
            0 => { let n = len_around(r, p.max_app_args); let a = r.gen_range(0, 2); f.application_args = vec![filler(r, a); n]; "args" }
            1 => {
                let total = len_around(r, p.max_app_total_arg_len);
                let k = r.gen_range(1, 4usize);
                f.application_args = (0..k).map(|i| vec![0; if i == 0 { total - total / k * (k - 1) } else { total / k }]).collect();
                "args length"
            }
            2 => { let n = len_around(r, p.max_app_tx_accounts); f.accounts = (0..n).map(|_| Address(arr32(r))).collect(); "accounts" }
            3 => { let n = len_around(r, p.max_app_tx_foreign_apps); f.foreign_apps = (0..n).map(|_| AppIndex(r.gen())).collect(); "foreign apps" }
            4 => { let n = len_around(r, p.max_app_tx_foreign_assets); f.foreign_assets = (0..n).map(|_| r.gen()).collect(); "foreign assets" }
            5 => {
                // the sum of references at its bound, shared out
                let n = len_around(r, p.max_app_total_tx_references);
                let a = r.gen_range(0, n + 1).min(p.max_app_tx_accounts as usize);
                let b = r.gen_range(0, n - a + 1).min(p.max_app_tx_foreign_apps as usize);
                f.accounts = vec![sender; a];
                f.foreign_apps = vec![AppIndex(3); b];
                f.foreign_assets = vec![4; n - a - b];
                "references"
            }
            6 => { f.extra_program_pages = if r.gen_range(0, 8) == 0 { u32::MAX } else { around(r, p.max_extra_app_program_pages as u64) as u32 }; "extra pages" }
            7 | 8 => {
                // programs at a bound of some number of pages
                let pages = 1 + r.gen_range(0, p.max_extra_app_program_pages.min(6) as u64 + 1);
                if r.gen() { f.extra_program_pages = (pages - 1) as u32 }
                let n = len_around(r, pages as u32 * p.max_app_program_len);
                if r.gen() { f.approval_program = filler(r, n) } else { f.clear_state_program = filler(r, n) }
                "program length"
            }
            9 => {
                let pages = 1 + r.gen_range(0, p.max_extra_app_program_pages.min(6) as u64 + 1);
                if r.gen() { f.extra_program_pages = (pages - 1) as u32 }
                let n = len_around(r, pages as u32 * p.max_app_total_program_len);
                let a = n / 2 + r.gen_range(0, 3).min(n / 2);
                f.approval_program = vec![1; a];
                f.clear_state_program = vec![1; n - a];
                "programs length"
            }
            10 => { let n = around(r, p.max_local_schema_entries); let a = r.gen_range(0, n.saturating_add(1).max(1)); f.local_state_schema = if r.gen_range(0, 8) == 0 { gen::schema(r) } else { StateSchema { num_uint: a, num_byte_slice: n - a } }; "local schema" }
            11 => { let n = around(r, p.max_global_schema_entries); let a = r.gen_range(0, n.saturating_add(1).max(1)); f.global_state_schema = if r.gen_range(0, 8) == 0 { gen::schema(r) } else { StateSchema { num_uint: a, num_byte_slice: n - a } }; "global schema" }
            12 => { f.application_id = AppIndex(if f.application_id.0 == 0 { r.gen_range(1, 1 << 40) } else { 0 }); "create or call" }
            _ => { f.on_completion = gen::on_completion(r); "on completion" }
        },
        _ => { tx.header.sender = spec.fee_sink; "sender fee sink" }
    }
}

fn tweak(r: &mut R, p: &mut ConsensusParams) {
    for _ in 0..r.gen_range(1, 5) {
        match r.gen_range(0, 24) {
            0 => p.max_tx_life = r.gen_range(0, 3000),
            1 => p.max_tx_note_bytes = r.gen_range(0, 2000),
            2 => p.min_tx_fee = r.gen_range(0, 3000),
            3 => p.enable_fee_pooling = !p.enable_fee_pooling,
            4 => p.asset = !p.asset,
            5 => p.application = !p.application,
            6 => p.compact_cert_rounds = if p.compact_cert_rounds == 0 { 128 } else { 0 },
            7 => p.enable_keyreg_coherency_check = !p.enable_keyreg_coherency_check,
            8 => p.support_become_non_participating_transactions = !p.support_become_non_participating_transactions,
            9 => p.support_rekeying = !p.support_rekeying,
            10 => p.support_transaction_leases = !p.support_transaction_leases,
            11 => p.support_tx_groups = !p.support_tx_groups,
            12 => p.enable_extra_pages_on_app_update = !p.enable_extra_pages_on_app_update,
            13 => p.max_extra_app_program_pages = r.gen_range(0, 6),
            14 => p.max_app_program_len = r.gen_range(0, 3000),
            15 => p.max_app_total_program_len = r.gen_range(0, 5000),
            16 => p.max_app_args = r.gen_range(0, 20),
            17 => p.max_app_total_arg_len = r.gen_range(0, 3000),
            18 => { p.max_app_tx_accounts = r.gen_range(0, 9); p.max_app_tx_foreign_apps = r.gen_range(0, 9); p.max_app_tx_foreign_assets = r.gen_range(0, 9) }
            19 => p.max_app_total_tx_references = if r.gen() { r.gen_range(0, 24) } else { 100_000 },
            20 => { p.max_local_schema_entries = r.gen_range(0, 100); p.max_global_schema_entries = r.gen_range(0, 100) }
            21 => { p.max_asset_name_bytes = r.gen_range(0, 64); p.max_asset_unit_name_bytes = r.gen_range(0, 16) }
            22 => p.max_asset_url_bytes = r.gen_range(0, 128),
            _ => p.max_asset_decimals = r.gen_range(0, 30),
        }
    }
}

pub fn show_tx(tx: &Transaction) -> Value {
    let v: Result<Value, _> = serde_json::to_value(tx);
    let mut s = v.map(|v| v.to_string()).unwrap_or_default();
    if s.len() > 1500 {
        s = format!("{}... ({} bytes)", s.chars().take(1500).collect::<String>(), s.len());
    }
    json!({"kind": gen::kind_of(&tx.fields), "json": s, "msgpack": hex(&algorsand::protocol::encode(tx).into_iter().take(600).collect::<Vec<u8>>())})
}

fn error_name(e: &InvalidTx) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

pub fn c19(c: &mut Ctx) {
    c.rule = "transactions of every kind built to be valid under the version, then up to 3 fields moved to a bound, next to it, or to an extreme; all 25 versions and versions with changed parameters; verdict and named rule compared with an independent rule table over the published parameters".into();
    c.assumptions.push("close_remainder_to is absent or a non-zero address".into());
    let n = c.n(300_000, 6_000_000);
    let mut i = 0;
    let mut single: HashMap<&'static str, u64> = HashMap::new();
    while i < n && c.in_time(40, 480) {
        i += 1;
        let (num, ver) = if c.rng.gen_range(0, 3) == 0 { *pick(&mut c.rng, &[(30, params::version(30)), (31, params::version(31)), (27, params::version(27))]) } else { *pick(&mut c.rng, &params::ALL) };
        let custom = c.rng.gen_range(0, 4) == 0;
        let mut p = params::params(ver);
        if custom {
            tweak(&mut c.rng, &mut p);
            if c.rng.gen() {
                // so that the separate bounds decide, however long the lists
                p.max_app_total_tx_references = 100_000;
            }
        }
        let mut spec = SpecialAddresses { fee_sink: Address(arr32(&mut c.rng)), rewards_pool: Address(arr32(&mut c.rng)) };
        let kind = match c.rng.gen_range(0, 10) { 7 | 8 => 5, 9 => 1, k => k };
        let mut tx = valid(&mut c.rng, &p, kind);
        let edits = *pick(&mut c.rng, &[0, 1, 1, 1, 2, 3]);
        for _ in 0..edits {
            let f = mutate(&mut c.rng, &mut tx, &spec, &p);
            c.state("mutations", f.as_bytes());
        }
        if c.rng.gen_range(0, 5) == 0 {
            coincide(&mut c.rng, &mut tx, &mut spec);
            c.count("coinciding values", 1);
        }
        let want = violated(&tx, &spec, &p);
        let d = || json!({"version": num, "custom parameters": custom, "tx": show_tx(&tx), "fee sink": hex(&spec.fee_sink.0), "rewards pool": hex(&spec.rewards_pool.0), "rules broken": &want});
        c.about(&format!("well-formed v{} custom={} {}", num, custom, gen::kind_of(&tx.fields)));
        let got = c.no_panic("is_well_formed", d, || {
            if custom { tx.is_well_formed(&spec, &p) } else { tx.is_well_formed(&spec, &CONSENSUS.0[&ver]) }
        });
        let got = match got { Some(g) => g, None => continue };
        c.case(&[&num.to_le_bytes()[..], &algorsand::protocol::encode(&tx)].concat(), true);
        c.count(&format!("kind {}", gen::kind_of(&tx.fields)), 1);
        c.state("versions", &num.to_le_bytes());
        c.count(if want.is_empty() { "valid" } else { "invalid" }, 1);
        if want.len() == 1 {
            *single.entry(want.iter().next().unwrap()).or_insert(0) += 1;
        }
        c.sample(d());
        match &got {
            Ok(()) => {
                for w in &want {
                    c.violation(&format!("accepted although {}", w), d());
                    if want.len() > 1 { break }
                }
            }
            Err(e) => {
                let name = error_name(e);
                if want.is_empty() {
                    c.violation(&format!("refused as {}", name), json!({"input": d(), "error": e.to_string()}));
                } else {
                    c.check(want.contains(name.as_str()), "error names a rule that holds", || json!({"input": d(), "error": name}));
                }
            }
        }
    }
    for (k, v) in single {
        c.count("cases with exactly one rule broken", v);
        c.state("rules broken alone", k.as_bytes());
    }
    c.require("valid", 1000);
    c.require("invalid", 1000);
    c.require("distinct rules broken alone", 38);
    for k in gen::KINDS.iter() {
        c.require(&format!("kind {}", k), 100);
    }
}

pub fn c20(c: &mut Ctx) {
    c.rule = "windows and rounds at every boundary, genesis ids and hashes equal, empty, different and differing in one bit, protocols before, with optional and with required genesis hash; touched accounts with coinciding and zero addresses".into();
    let n = c.n(250_000, 10_000_000);
    let mut i = 0;
    while i < n && c.in_time(30, 400) {
        i += 1;
        let (_, ver) = *pick(&mut c.rng, &params::ALL);
        let mut p = params::params(ver);
        if c.rng.gen_range(0, 6) == 0 {
            p.support_genesis_hash = c.rng.gen();
            p.require_genesis_hash = c.rng.gen();
        }
        let mut h = gen::header(&mut c.rng);
        if c.rng.gen() {
            let a = u64_biased(&mut c.rng);
            h.first_valid = Round(a);
            h.last_valid = Round(a.saturating_add(c.rng.gen_range(0, 4)));
        }
        let (f, l) = (h.first_valid.0, h.last_valid.0);
        let round = match c.rng.gen_range(0, 8) {
            0 => f,
            1 => f.saturating_sub(1),
            2 => f.saturating_add(1),
            3 => l,
            4 => l.saturating_add(1),
            5 => l.saturating_sub(1),
            6 => f / 2 + l / 2,
            _ => u64_biased(&mut c.rng),
        };
        let gid = gen::text(&mut c.rng, 6);
        let gh = gen::hash(&mut c.rng);
        match c.rng.gen_range(0, 5) {
            0 => h.genesis_id = String::new(),
            1 => h.genesis_id = match c.rng.gen_range(0, 6) {
                0 => format!("{} ", gid),
                1 => format!(" {}", gid),
                2 => gid.to_uppercase(),
                3 => gid.to_lowercase(),
                4 => gid.trim().to_owned(),
                _ => format!("{}x", gid),
            },
            2 => h.genesis_id = if c.rng.gen() { gid.chars().skip(1).collect() } else { gid.chars().rev().collect() },
            _ => h.genesis_id = gid.clone(),
        }
        match c.rng.gen_range(0, 5) {
            0 => h.genesis_hash = CryptoHash([0; 32]),
            1 => {
                h.genesis_hash = gh.clone();
                h.genesis_hash.0[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
            }
            _ => h.genesis_hash = gh.clone(),
        }
        let mut want = BTreeSet::new();
        if !(f <= round && round <= l) { want.insert("Dead"); }
        if h.genesis_id != "" && h.genesis_id != gid { want.insert("GenesisIdMismatch"); }
        let has = h.genesis_hash.0 != [0; 32];
        if p.support_genesis_hash {
            if has && h.genesis_hash.0 != gh.0 { want.insert("GenesisHashMismatch"); }
            if !has && p.require_genesis_hash { want.insert("GenesisHashMissing"); }
        } else if has {
            want.insert("GenesisHashNotAllowed");
        }
        let d = || json!({"first": f, "last": l, "round": round, "genesis id": [&h.genesis_id, &gid], "genesis hash": [hex(&h.genesis_hash.0), hex(&gh.0)],
            "supported": p.support_genesis_hash, "required": p.require_genesis_hash, "expected": &want});
        c.about(&format!("alive {}", d()));
        c.case(d().to_string().as_bytes(), true);
        let got = c.no_panic("alive", d, || h.verif_alive(Round(round), &p, &gid, &gh));
        if let Some(got) = got {
            c.count(if want.is_empty() { "alive" } else { "not alive" }, 1);
            if want.len() == 1 { c.count(&format!("only {}", want.iter().next().unwrap()), 1); }
            c.sample(d());
            match got {
                Ok(()) => { c.check(want.is_empty(), &format!("alive although {}", want.iter().next().unwrap_or(&"")), d); }
                Err(e) => {
                    let name = error_name(&e);
                    if want.is_empty() { c.violation(&format!("not alive: {}", name), d()) } else {
                        c.check(want.contains(name.as_str()), "error names a rule that holds", || json!({"input": d(), "error": name}));
                    }
                    c.no_panic("error text", d, || e.to_string());
                }
            }
        }
        // accounts, amounts, receivers
        let mut tx = gen::tx(&mut c.rng);
        let pool: Vec<Address> = (0..3).map(|_| Address(arr32(&mut c.rng))).chain(Some(Address([0; 32]))).collect();
        let spec = SpecialAddresses { fee_sink: gen::pool_addr(&mut c.rng, &pool), rewards_pool: gen::pool_addr(&mut c.rng, &pool) };
        tx.header.sender = gen::pool_addr(&mut c.rng, &pool);
        let zero = Address([0; 32]);
        let mut want: BTreeSet<[u8; 32]> = [tx.header.sender.0, spec.fee_sink.0].iter().copied().collect();
        let (mut amount, mut recv) = (0, None);
        match &mut tx.fields {
            TxFields::Payment(f) => {
                f.receiver = gen::pool_addr(&mut c.rng, &pool);
                if let Some(a) = f.close_remainder_to.as_mut() {
                    *a = gen::pool_addr(&mut c.rng, &pool[..3]);
                    if *a == zero { a.0[0] = 1 }
                    want.insert(a.0);
                }
                want.insert(f.receiver.0);
                amount = f.amount.0;
                recv = Some(f.receiver);
            }
            TxFields::AssetTransfer(f) => {
                f.asset_receiver = gen::pool_addr(&mut c.rng, &pool);
                f.asset_close_to = gen::pool_addr(&mut c.rng, &pool);
                f.asset_sender = gen::pool_addr(&mut c.rng, &pool);
                want.insert(f.asset_receiver.0);
                if f.asset_close_to != zero { want.insert(f.asset_close_to.0); }
                if f.asset_sender != zero { want.insert(f.asset_sender.0); }
                recv = Some(f.asset_receiver);
            }
            _ => {}
        }
        let d = || json!({"tx": show_tx(&tx), "fee sink": hex(&spec.fee_sink.0)});
        let got = c.no_panic("relevant addresses", d, || (tx.verif_relevant_addrs(&spec), tx.verif_tx_amount(), tx.verif_get_receiver_address()));
        if let Some((addrs, am, rc)) = got {
            c.count(&format!("touched accounts of {}", gen::kind_of(&tx.fields)), 1);
            let set: BTreeSet<[u8; 32]> = addrs.iter().map(|a| a.0).collect();
            c.check(set == want, "relevant addresses", || json!({"input": d(), "got": set.iter().map(|a| hex(a)).collect::<Vec<_>>(), "want": want.iter().map(|a| hex(a)).collect::<Vec<_>>()}));
            c.check(am.0 == amount, "amount", || json!({"input": d(), "got": am.0, "want": amount}));
            c.check(rc == recv, "receiver", d);
            for a in pool.iter().chain(std::iter::once(&spec.rewards_pool)) {
                let m = tx.verif_match_address(a, &spec);
                c.check(m == want.contains(&a.0), "match address", || json!({"input": d(), "address": hex(&a.0), "got": m}));
            }
        }
        let ctx_auth = SignedTx { sig: gen::sig(&mut c.rng), msig: None, lsig: None, tx: tx.clone(), auth_addr: gen::pool_addr(&mut c.rng, &pool) };
        let want = if ctx_auth.auth_addr == zero { tx.header.sender } else { ctx_auth.auth_addr };
        c.check(ctx_auth.authorizer() == want, "authorizer", || json!({"tx": show_tx(&tx), "auth": hex(&ctx_auth.auth_addr.0)}));
    }
    c.require("alive", 500);
    for k in ["Dead", "GenesisIdMismatch", "GenesisHashMismatch", "GenesisHashMissing", "GenesisHashNotAllowed"].iter() {
        c.require(&format!("only {}", k), 50);
    }
}

#[derive(serde::Serialize)]
struct GroupMirror {
    tx_group_hashes: Vec<CryptoHash>,
}

pub fn c21(c: &mut Ctx) {
    c.rule = "groups of 0..20 transactions of all kinds, fees near the requirement, near u64 limits and random; ids over all single changes, swaps, drops, additions and regroupings".into();
    let n = c.n(120_000, 6_000_000);
    let mut i = 0;
    let mut ids: HashMap<[u8; 32], Vec<[u8; 32]>> = HashMap::new();
    // more members than a group may have: the sums do not depend on that limit
    for k in [255usize, 256, 257, 300, 1000, 65_537] {
        let mut s = SignedTx { sig: gen::sig(&mut c.rng), msig: None, lsig: None, tx: Transaction { header: Header::default(), fields: gen::fields(&mut c.rng, 0) }, auth_addr: Address([0; 32]) };
        let min = 1000 + c.rng.gen_range(0, 9);
        s.tx.header.fee.0 = min;
        let mut group = vec![s; k];
        let payers = group.iter().filter(|t| !matches!(t.tx.fields, TxFields::CompactCert(_))).count() as u64;
        for delta in [0i64, 1, -1, 7] {
            group[k - 1].tx.header.fee.0 = (min as i64 + delta) as u64;
            let want = (min * k as u64) as i64 + delta - (payers * min) as i64;
            let d = || json!({"members": k, "minimum": min, "last fee": group[k - 1].tx.header.fee.0});
            let got = c.no_panic("fee_credit", d, || fee_credit(&group, min).ok());
            if let Some(g) = got {
                c.check(g == (if want < 0 { None } else { Some(want as u64) }), "fee credit of many", || json!({"input": d(), "got": g, "want": want}));
                c.count("large groups", 1);
            }
        }
    }
    while i < n && c.in_time(30, 400) {
        i += 1;
        let min = *pick(&mut c.rng, &[0u64, 1, 1000, 1000, 1000, 2500, u64::MAX, u64::MAX / 16, u64::MAX / 3 + 1]);
        let k = c.rng.gen_range(0, 18usize);
        let mut group: Vec<SignedTx> = Vec::new();
        for _ in 0..k.min(if i % 10 == 0 { 18 } else { 6 }) {
            let kind = c.rng.gen_range(0, 7);
            let mut s = SignedTx { sig: gen::sig(&mut c.rng), msig: None, lsig: None, tx: Transaction { header: Header::default(), fields: gen::fields(&mut c.rng, kind) }, auth_addr: Address([0; 32]) };
            s.tx.header.fee = MicroAlgos(match c.rng.gen_range(0, 6) {
                0 => 0,
                1 => u64_biased(&mut c.rng),
                2 => min.saturating_mul(2),
                3 => min.saturating_add(1),
                4 => min.saturating_sub(1),
                _ => min,
            });
            group.push(s);
        }
        let payers = group.iter().filter(|t| !matches!(t.tx.fields, TxFields::CompactCert(_))).count() as u128;
        // one fee set so that the balance is exactly at, just below or just above the requirement
        if let (Some(j), 0) = (if group.is_empty() { None } else { Some(c.rng.gen_range(0, group.len())) }, c.rng.gen_range(0, 2)) {
            let rest: u128 = group.iter().enumerate().filter(|(x, _)| *x != j).map(|(_, t)| t.tx.header.fee.0 as u128).sum();
            let need = payers * min as u128;
            let target = need as i128 - rest as i128 + *pick(&mut c.rng, &[-1i128, 0, 1]);
            if target >= 0 && target <= u64::MAX as i128 {
                group[j].tx.header.fee = MicroAlgos(target as u64);
            }
        }
        let paid: u128 = group.iter().map(|t| t.tx.header.fee.0 as u128).sum();
        let need = payers * min as u128;
        let capped = paid.min(u64::MAX as u128);
        let want = if need > u64::MAX as u128 || capped < need { None } else { Some((capped - need) as u64) };
        let d = || json!({"minimum": min, "fees": group.iter().map(|t| (gen::kind_of(&t.tx.fields), t.tx.header.fee.0)).collect::<Vec<_>>(), "expected": want});
        c.about(&format!("fee credit {}", d()));
        c.case(d().to_string().as_bytes(), !group.is_empty());
        let got = c.no_panic("fee_credit", d, || fee_credit(&group, min).ok());
        if let Some(g) = got {
            c.count(if want.is_some() { "groups with credit" } else { "groups refused" }, 1);
            if paid == need { c.count("groups paying exactly the minimum", 1); }
            if paid > u64::MAX as u128 { c.count("groups over the u64 range", 1); }
            if payers as usize != group.len() { c.count("groups with certificates", 1); }
            c.sample(d());
            c.check(g == want, if payers as usize != group.len() { "fee credit with certificates" } else { "fee credit" }, || json!({"input": d(), "got": g}));
        }
        if i % 4 != 0 {
            continue;
        }
        // group identifiers
        let members = if i % 40 == 0 { c.rng.gen_range(6, 19) } else { c.rng.gen_range(0, 6) };
        let hs: Vec<[u8; 32]> = (0..members).map(|_| arr32_biased(&mut c.rng)).collect();
        let mut variants: Vec<(&str, Vec<[u8; 32]>)> = vec![("same", hs.clone())];
        let mut v = hs.clone();
        v.reverse();
        variants.push(("reversed", v));
        for j in 0..hs.len() {
            let mut v = hs.clone();
            v.remove(j);
            variants.push(("dropped", v));
            let mut v = hs.clone();
            v.swap(0, j);
            variants.push(("swapped", v));
            let mut v = hs.clone();
            v[j][c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
            variants.push(("changed", v));
            let mut v = hs.clone();
            v.insert(j, hs[j]);
            variants.push(("duplicated", v));
        }
        let mut v = hs.clone();
        v.push([0; 32]);
        variants.push(("zero appended", v));
        for (what, v) in variants {
            let d = || json!({"what": what, "members": v.iter().map(|x| hex(x)).collect::<Vec<_>>()});
            let list: Vec<CryptoHash> = v.iter().map(|x| CryptoHash(*x)).collect();
            let r = c.no_panic("group id", d, || verif_tx_group_hash(list.clone()).0);
            if let Some(id) = r {
                c.count("group ids", 1);
                let w = refm::h256(&[b"TG", &algorsand::protocol::encode(&GroupMirror { tx_group_hashes: list })]);
                c.check(id == w, "group id is not the hash of the ordered member ids", d);
                let first = ids.entry(id).or_insert_with(|| v.clone()).clone();
                c.check(first == v, &format!("same id:{}", what), || json!({"input": d(), "other": first.iter().map(|x| hex(x)).collect::<Vec<_>>()}));
            }
        }
        if ids.len() > 200_000 { ids.clear(); }
        // identifiers of groups of signed transactions
        if !group.is_empty() && group.len() < 6 {
            let d = || json!({"group": group.iter().map(|t| show_tx(&t.tx)).collect::<Vec<_>>()});
            let a = c.no_panic("signed group id", d, || verif_signed_group_id(group.clone()).0 .0);
            let j = c.rng.gen_range(0, group.len());
            let mut g2 = group.clone();
            let what = match c.rng.gen_range(0, 4) {
                0 => { g2.remove(j); "dropped" }
                1 => { g2[j].tx.header.fee.0 ^= 1; "changed" }
                2 => { g2[j].auth_addr.0[3] ^= 1; "signer changed" }
                _ => { g2.swap(0, j); "swapped" }
            };
            let b = c.no_panic("signed group id", d, || verif_signed_group_id(g2.clone()).0 .0);
            if let (Some(a), Some(b)) = (a, b) {
                c.count("signed group ids", 1);
                c.check((a == b) == (group == g2), &format!("signed group id:{}", what), d);
            }
        }
    }
    c.require("groups with credit", 500);
    c.require("groups refused", 500);
    c.require("groups paying exactly the minimum", 200);
    c.require("groups with certificates", 200);
    c.require("group ids", 1000);
}
