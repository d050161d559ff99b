//! The published protocol parameters, field by field: value from which version on (7 ..= 30, 31 is "future").
use algorsand::config::{ConsensusParams, PaysetCommitType};
use algorsand::protocol::ConsensusVersion as CV;
use std::time::Duration;

pub const ALL: [(u32, CV); 25] = [
    (7, CV::V7), (8, CV::V8), (9, CV::V9), (10, CV::V10), (11, CV::V11), (12, CV::V12), (13, CV::V13), (14, CV::V14), (15, CV::V15),
    (16, CV::V16), (17, CV::V17), (18, CV::V18), (19, CV::V19), (20, CV::V20), (21, CV::V21), (22, CV::V22), (23, CV::V23), (24, CV::V24),
    (25, CV::V25), (26, CV::V26), (27, CV::V27), (28, CV::V28), (29, CV::V29), (30, CV::V30), (31, CV::Future),
];

/// (from, to, delay)
pub const UPGRADES: [(u32, u32, u64); 23] = [
    (7, 8, 0), (8, 9, 0), (9, 10, 0), (10, 11, 0), (11, 12, 0), (12, 13, 0), (13, 14, 0), (14, 15, 0), (15, 16, 0), (16, 17, 0),
    (17, 19, 0), (18, 19, 0), (19, 20, 0), (20, 21, 0), (21, 23, 0), (22, 23, 10_000), (23, 24, 140_000), (24, 26, 140_000),
    (25, 26, 140_000), (26, 27, 60_000), (27, 28, 140_000), (28, 29, 60_000), (29, 30, 140_000),
];

pub fn number(v: CV) -> u32 {
    ALL.iter().find(|x| x.1 == v).map(|x| x.0).unwrap_or(0)
}

pub fn version(n: u32) -> CV {
    ALL[(n - 7) as usize].1
}

pub fn params(v: CV) -> ConsensusParams {
    let n = number(v);
    assert!(n >= 7);
    let at = |steps: &[(u32, u64)]| steps.iter().rev().find(|s| s.0 <= n).map_or(0, |s| s.1);
    let at32 = |steps: &[(u32, u64)]| at(steps) as u32;
    let on = |from: u32| n >= from;
    let mut p = ConsensusParams::default();
    p.upgrade_vote_rounds = 10_000;
    p.upgrade_threshold = 9_000;
    p.default_upgrade_wait_rounds = at(&[(7, 10_000), (20, 140_000)]);
    p.min_upgrade_wait_rounds = at(&[(22, 10_000)]);
    p.max_upgrade_wait_rounds = at(&[(22, 150_000)]);
    p.max_version_string_len = at32(&[(7, 64), (12, 128)]);
    p.max_tx_bytes_per_block = 1_000_000;
    p.max_tx_note_bytes = 1024;
    p.max_tx_life = 1000;
    for (f, t, d) in UPGRADES.iter() {
        if *f == n {
            p.approved_upgrades.insert(version(*t), *d);
        }
    }
    p.support_genesis_hash = on(14);
    p.require_genesis_hash = on(16);
    p.default_key_dilution = 10_000;
    p.min_balance = at(&[(7, 10_000), (9, 100_000)]);
    p.min_tx_fee = 1000;
    p.enable_fee_pooling = on(28);
    p.enable_app_cost_pooling = on(30);
    p.reward_unit = 1_000_000;
    p.rewards_rate_refresh_interval = 500_000;
    p.seed_lookback = 2;
    p.seed_refresh_interval = at(&[(7, 100), (8, 80)]);
    p.max_bal_lookback = 320;
    p.num_proposers = at(&[(7, 30), (8, 9), (10, 20)]);
    p.soft_committee_size = at(&[(7, 2500), (8, 2990)]);
    p.soft_committee_threshold = at(&[(7, 1870), (8, 2267)]);
    p.cert_committee_size = at(&[(7, 1000), (8, 1500)]);
    p.cert_committee_threshold = at(&[(7, 720), (8, 1112)]);
    p.next_committee_size = at(&[(7, 10_000), (8, 5000)]);
    p.next_committee_threshold = at(&[(7, 7750), (8, 3838)]);
    p.late_committee_size = at(&[(7, 10_000), (8, 5000), (10, 500)]);
    p.late_committee_threshold = at(&[(7, 7750), (8, 3838), (10, 320)]);
    p.redo_committee_size = at(&[(7, 10_000), (8, 5000), (10, 2400)]);
    p.redo_committee_threshold = at(&[(7, 7750), (8, 3838), (10, 1768)]);
    p.down_committee_size = at(&[(7, 10_000), (8, 5000), (10, 6000)]);
    p.down_committee_threshold = at(&[(7, 7750), (8, 3838), (10, 4560)]);
    p.agreement_filter_timeout = Duration::from_secs(4);
    p.agreement_filter_timeout_period0 = Duration::from_secs(4);
    p.fast_recovery_lambda = Duration::from_secs(300);
    p.fast_partition_recovery = on(10);
    p.payset_commit = if on(26) { PaysetCommitType::Merkle } else if on(11) { PaysetCommitType::Flat } else { PaysetCommitType::Unsupported };
    p.max_timestamp_increment = 25;
    p.support_signed_tx_in_block = on(11);
    p.force_non_participating_fee_sink = on(15);
    p.apply_data = on(14);
    p.rewards_in_apply_data = on(15);
    p.credential_domain_separation_enabled = on(16);
    p.support_become_non_participating_transactions = on(18);
    p.pending_residue_rewards = on(18);
    p.asset = on(18);
    p.max_assets_per_account = at32(&[(18, 1000)]);
    p.max_asset_name_bytes = at32(&[(18, 32)]);
    p.max_asset_unit_name_bytes = at32(&[(18, 8)]);
    p.max_asset_url_bytes = at32(&[(18, 32), (28, 96)]);
    p.tx_counter = on(18);
    p.support_tx_groups = on(18);
    p.max_tx_group_size = at32(&[(7, 1), (18, 16)]);
    p.support_transaction_leases = on(18);
    p.fix_transaction_leases = on(23);
    p.logic_sig_version = at(&[(18, 1), (24, 2), (26, 3), (28, 4), (30, 5)]);
    p.logic_sig_max_size = at(&[(18, 1000)]);
    p.logic_sig_max_cost = at(&[(18, 20_000)]);
    p.max_asset_decimals = at32(&[(20, 19)]);
    p.support_rekeying = on(24);
    p.application = on(24);
    p.max_app_args = at32(&[(24, 16)]);
    p.max_app_total_arg_len = at32(&[(24, 2048)]);
    p.max_app_program_len = at32(&[(24, 1024), (28, 2048)]);
    p.max_app_total_program_len = at32(&[(24, 2048)]);
    p.max_extra_app_program_pages = at32(&[(28, 3)]);
    p.max_app_tx_accounts = at32(&[(24, 4)]);
    p.max_app_tx_foreign_apps = at32(&[(24, 2), (28, 8)]);
    p.max_app_tx_foreign_assets = at32(&[(24, 2), (28, 8)]);
    p.max_app_total_tx_references = at32(&[(24, 8)]);
    p.max_app_program_cost = at32(&[(24, 700)]);
    p.max_app_key_len = at32(&[(24, 64)]);
    p.max_app_bytes_value_len = at32(&[(24, 64), (28, 128)]);
    p.max_app_sum_key_value_lens = at32(&[(24, 128)]);
    p.max_inner_transactions = at32(&[(30, 16)]);
    p.max_apps_created = at32(&[(24, 10)]);
    p.max_apps_opted_in = at32(&[(24, 10), (30, 50)]);
    p.app_flat_params_min_balance = at(&[(24, 100_000)]);
    p.app_flat_opt_in_min_balance = at(&[(24, 100_000)]);
    p.schema_min_balance_per_entry = at(&[(24, 25_000)]);
    p.schema_uint_min_balance = at(&[(24, 3_500)]);
    p.schema_bytes_min_balance = at(&[(24, 25_000)]);
    p.max_local_schema_entries = at(&[(24, 16)]);
    p.max_global_schema_entries = at(&[(24, 64)]);
    p.maximum_minimum_balance = at(&[(24, 100_100_000)]);
    p.compact_cert_rounds = at(&[(31, 128)]);
    p.compact_cert_top_voters = at(&[(31, 1 << 20)]);
    p.compact_cert_voters_lookback = at(&[(31, 16)]);
    p.compact_cert_weight_threshold = at32(&[(31, (1u64 << 32) * 30 / 100)]);
    p.compact_cert_sec_kq = at32(&[(31, 128)]);
    p.enable_asset_close_amount = on(25);
    p.initial_rewards_rate_calculation = on(26);
    p.no_empty_local_deltas = on(27);
    p.enable_keyreg_coherency_check = on(28);
    p.enable_extra_pages_on_app_update = on(29);
    p
}
