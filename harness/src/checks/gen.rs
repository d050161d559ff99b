//! Random values of the code's own types.
use crate::core::*;
use algorsand::crypto::{self, CryptoHash, MultisigSignature, MultisigSubsig, Signature, VrfKeypair, VrfPublicKey};
use algorsand::data::basics::*;
use algorsand::data::transactions::*;
use algorsand::protocol;
use rand::Rng;
use std::collections::HashMap;

pub fn addr(r: &mut R) -> Address {
    Address(arr32_biased(r))
}

/// From a small pool, so that equalities between addresses occur.
pub fn pool_addr(r: &mut R, pool: &[Address]) -> Address {
    if r.gen_range(0, 6) == 0 {
        addr(r)
    } else {
        *pick(r, pool)
    }
}

pub fn hash(r: &mut R) -> CryptoHash {
    CryptoHash(arr32_biased(r))
}

pub fn keypair(r: &mut R) -> crypto::Keypair {
    let secret = ed25519_dalek::SecretKey::from_bytes(&arr32(r)).unwrap();
    let public = (&secret).into();
    crypto::Keypair { secret, public }
}

pub fn pk(r: &mut R) -> ed25519_dalek::PublicKey {
    match r.gen_range(0, 4) {
        0 => Default::default(),
        _ => keypair(r).public,
    }
}

pub fn vrf_pk(r: &mut R) -> VrfPublicKey {
    match r.gen_range(0, 4) {
        0 => Default::default(),
        _ => VrfKeypair::from_seed(arr32(r)).public(),
    }
}

/// Where encodings of lengths change form.
const STEPS: [usize; 9] = [15, 16, 17, 31, 32, 33, 127, 128, 129];

pub fn vecb(r: &mut R, max: usize) -> Vec<u8> {
    if r.gen_range(0, 40) == 0 {
        let n = match r.gen_range(0, 100) {
            0 => *pick(r, &[65_535usize, 65_536, 70_000]),
            k if k < 40 => *pick(r, &[255usize, 256, 257, 1023, 1024, 1025]),
            _ => *pick(r, &STEPS),
        };
        return bytes(r, n);
    }
    let n = match r.gen_range(0, 6) {
        0 => 0,
        1 => 1,
        2 => r.gen_range(0, max + 1),
        _ => r.gen_range(0, 12.min(max) + 1),
    };
    bytes(r, n)
}

pub fn text(r: &mut R, max: usize) -> String {
    if r.gen_range(0, 40) == 0 {
        let n = *pick(r, &[15usize, 16, 31, 32, 33, 64, 128, 255, 256]);
        return (0..n).map(|_| *pick(r, &['a', 'b', 'Z', '0'])).collect();
    }
    let n = r.gen_range(0, max + 1);
    (0..n).map(|_| *pick(r, &['a', 'b', 'Z', '0', '-', 'é', '\0', '𝄞', ' '])).collect()
}

pub fn list<T>(r: &mut R, max: usize, mut f: impl FnMut(&mut R) -> T) -> Vec<T> {
    let n = if r.gen_range(0, 3) == 0 { 0 } else if max > 2 && r.gen_range(0, 60) == 0 { *pick(r, &STEPS[..6]) } else { r.gen_range(0, max + 1) };
    (0..n).map(|_| f(r)).collect()
}

pub fn header(r: &mut R) -> Header {
    let sparse = r.gen_range(0, 3) == 0;
    let mut h = Header::default();
    let mut on = |r: &mut R| !sparse || r.gen_range(0, 4) == 0;
    if on(r) {
        h.sender = addr(r);
    }
    if on(r) {
        h.fee = MicroAlgos(u64_biased(r));
    }
    if on(r) {
        h.first_valid = Round(u64_biased(r));
    }
    if on(r) {
        h.last_valid = Round(u64_biased(r));
    }
    if on(r) {
        h.note = vecb(r, 1100);
    }
    if on(r) {
        h.genesis_id = text(r, 12);
    }
    if on(r) {
        h.genesis_hash = hash(r);
    }
    if on(r) {
        h.group = hash(r);
    }
    if on(r) {
        h.lease = arr32_biased(r);
    }
    if on(r) {
        h.rekey_to = addr(r);
    }
    h
}

pub fn schema(r: &mut R) -> StateSchema {
    match r.gen_range(0, 3) {
        0 => StateSchema::default(),
        1 => StateSchema { num_uint: r.gen_range(0, 70), num_byte_slice: r.gen_range(0, 70) },
        _ => StateSchema { num_uint: u64_biased(r), num_byte_slice: u64_biased(r) },
    }
}

pub fn asset_params(r: &mut R) -> AssetParams {
    AssetParams {
        total: u64_biased(r),
        decimals: r.gen_range(0, 25),
        default_frozen: r.gen(),
        unit_name: text(r, 9),
        asset_name: text(r, 33),
        url: text(r, 98),
        metadata_hash: arr32_biased(r),
        manager: addr(r),
        reserve: addr(r),
        freeze: addr(r),
        clawback: addr(r),
    }
}

pub fn on_completion(r: &mut R) -> OnCompletion {
    pick(
        r,
        &[
            OnCompletion::NoOpOC,
            OnCompletion::OptInOC,
            OnCompletion::CloseOutOC,
            OnCompletion::ClearStateOC,
            OnCompletion::UpdateApplicationOC,
            OnCompletion::DeleteApplicationOC,
        ],
    )
    .clone()
}

pub fn app_call(r: &mut R) -> AppCallFields {
    AppCallFields {
        application_id: AppIndex(if r.gen() { 0 } else { u64_biased(r) }),
        on_completion: on_completion(r),
        application_args: list(r, 5, |r| vecb(r, 40)),
        accounts: list(r, 4, addr),
        foreign_apps: list(r, 4, |r| AppIndex(u64_biased(r))),
        foreign_assets: list(r, 4, u64_biased),
        local_state_schema: schema(r),
        global_state_schema: schema(r),
        approval_program: vecb(r, 200),
        clear_state_program: vecb(r, 200),
        extra_program_pages: *pick(r, &[0, 0, 0, 1, 2, 3, 4, u32::MAX]),
    }
}

pub const KINDS: [&str; 7] = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"];

pub fn kind_of(f: &TxFields) -> &'static str {
    match f {
        TxFields::Payment(_) => "pay",
        TxFields::Keyreg(_) => "keyreg",
        TxFields::AssetConfig(_) => "acfg",
        TxFields::AssetTransfer(_) => "axfer",
        TxFields::AssetFreeze(_) => "afrz",
        TxFields::AppCall(_) => "appl",
        TxFields::CompactCert(_) => "cert",
    }
}

pub fn fields(r: &mut R, kind: usize) -> TxFields {
    match kind {
        0 => TxFields::Payment(PaymentFields {
            receiver: addr(r),
            amount: MicroAlgos(u64_biased(r)),
            // Some(zero address) is not a value the program itself distinguishes from None on the wire of other nodes,
            // but it is a value of the type, so it is generated as well
            close_remainder_to: if r.gen() { None } else { Some(addr(r)) },
        }),
        1 => TxFields::Keyreg(KeyregFields {
            vote_pk: pk(r),
            selection_pk: vrf_pk(r),
            vote_first: Round(u64_biased(r)),
            vote_last: Round(u64_biased(r)),
            vote_key_dilution: u64_biased(r),
            nonparticipation: r.gen(),
        }),
        2 => TxFields::AssetConfig(AssetConfigFields { config_asset: u64_biased(r), asset_params: asset_params(r) }),
        3 => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: u64_biased(r),
            asset_amount: u64_biased(r),
            asset_sender: addr(r),
            asset_receiver: addr(r),
            asset_close_to: addr(r),
        }),
        4 => TxFields::AssetFreeze(AssetFreezeFields {
            freeze_account: addr(r),
            freeze_asset: u64_biased(r),
            asset_frozen: r.gen(),
        }),
        5 => TxFields::AppCall(app_call(r)),
        _ => TxFields::CompactCert(CompactCertFields {
            cert_round: Round(u64_biased(r)),
            cert_type: protocol::CompactCertType::Basic,
        }),
    }
}

pub fn tx_kind(r: &mut R, kind: usize) -> Transaction {
    Transaction { header: header(r), fields: fields(r, kind) }
}

pub fn tx(r: &mut R) -> Transaction {
    let k = r.gen_range(0, 7);
    tx_kind(r, k)
}

pub fn sig(r: &mut R) -> Signature {
    if r.gen_range(0, 3) == 0 {
        return Signature::new([0; 64]);
    }
    let mut b = [0u8; 64];
    for x in b.iter_mut() {
        *x = r.gen();
    }
    // Mostly-zero values too: half of it, or all but a few bytes.
    match r.gen_range(0, 6) {
        0 => b[..32].copy_from_slice(&[0; 32]),
        1 => b[32..].copy_from_slice(&[0; 32]),
        2 => {
            let keep = [r.gen_range(0, 64), r.gen_range(0, 64), 0, 63][r.gen_range(0, 4)];
            for (i, x) in b.iter_mut().enumerate() {
                if i != keep {
                    *x = 0;
                }
            }
        }
        _ => {}
    }
    b[63] &= 0x1f;
    Signature::new(b)
}

pub fn msig(r: &mut R) -> MultisigSignature {
    MultisigSignature {
        version: r.gen_range(0, 3),
        threshold: r.gen_range(0, 4),
        subsigs: list(r, 3, |r| MultisigSubsig { key: pk(r), sig: if r.gen() { None } else { Some(sig(r)) } }),
    }
}

pub fn lsig(r: &mut R) -> LogicSig {
    LogicSig { logic: vecb(r, 30), sig: sig(r), msig: msig(r), args: list(r, 3, |r| vecb(r, 10)) }
}

pub fn signed(r: &mut R) -> SignedTx {
    SignedTx {
        sig: sig(r),
        msig: if r.gen_range(0, 3) == 0 { Some(msig(r)) } else { None },
        lsig: if r.gen_range(0, 3) == 0 { Some(lsig(r)) } else { None },
        tx: tx(r),
        auth_addr: if r.gen() { Address::default() } else { addr(r) },
    }
}

pub fn value_delta(r: &mut R) -> ValueDelta {
    ValueDelta {
        action: *pick(r, &[DeltaAction::SetBytes, DeltaAction::SetUint, DeltaAction::Delete]),
        bytes: vecb(r, 20),
        uint: u64_biased(r),
    }
}

pub fn state_delta(r: &mut R) -> StateDelta {
    StateDelta::verif_new(list(r, 4, |r| (text(r, 5), value_delta(r))))
}

pub fn eval_delta(r: &mut R, depth: u32) -> EvalDelta {
    EvalDelta {
        global_delta: state_delta(r),
        local_deltas: list(r, 4, |r| (u64_biased(r), state_delta(r))).into_iter().collect::<HashMap<_, _>>(),
        logs: list(r, 3, |r| text(r, 6)),
        inner_txs: if depth == 0 { vec![] } else { list(r, 2, |r| with_ad(r, depth - 1)) },
    }
}

pub fn apply_data(r: &mut R, depth: u32) -> ApplyData {
    if r.gen_range(0, 3) == 0 {
        return ApplyData::default();
    }
    ApplyData {
        closing_amount: MicroAlgos(u64_biased(r)),
        asset_closing_amount: u64_biased(r),
        sender_rewards: MicroAlgos(u64_biased(r)),
        receiver_rewards: MicroAlgos(u64_biased(r)),
        close_rewards: MicroAlgos(u64_biased(r)),
        eval_delta: if r.gen() { EvalDelta::default() } else { eval_delta(r, depth) },
        config_asset: u64_biased(r),
        application_id: AppIndex(u64_biased(r)),
    }
}

pub fn with_ad(r: &mut R, depth: u32) -> SignedTxWithAD {
    SignedTxWithAD { tx: signed(r), ad: apply_data(r, depth) }
}

pub fn in_block(r: &mut R) -> SignedTxInBlock {
    SignedTxInBlock { tx: with_ad(r, 1), has_genesis_id: r.gen(), has_genesis_hash: r.gen() }
}

// ---- blocks, accounts ------------------------------------------------------

use algorsand::data::bookkeeping::*;
use algorsand::data::committee;
use algorsand::protocol::ConsensusVersion as CV;

pub const VERSIONS: [CV; 24] = [
    CV::V7, CV::V8, CV::V9, CV::V10, CV::V11, CV::V12, CV::V13, CV::V14, CV::V15, CV::V16, CV::V17, CV::V18, CV::V19,
    CV::V20, CV::V21, CV::V22, CV::V23, CV::V24, CV::V25, CV::V26, CV::V27, CV::V28, CV::V29, CV::V30,
];

pub fn version(r: &mut R) -> CV {
    *pick(r, &VERSIONS)
}

pub fn upgrade_state(r: &mut R) -> UpgradeState {
    UpgradeState {
        current_protocol: version(r),
        next_protocol: if r.gen() { None } else { Some(version(r)) },
        next_protocol_approvals: u64_biased(r),
        next_protocol_vote_before: Round(u64_biased(r)),
        next_protocol_switch_on: Round(u64_biased(r)),
    }
}

pub fn rewards_state(r: &mut R) -> RewardsState {
    RewardsState {
        fee_sink: addr(r),
        rewards_pool: addr(r),
        rewards_level: u64_biased(r),
        rewards_rate: u64_biased(r),
        rewards_residue: u64_biased(r),
        rewards_recalculation_round: Round(u64_biased(r)),
    }
}

pub fn cc_state(r: &mut R) -> CompactCertState {
    CompactCertState {
        compactcert_voters: hash(r),
        compactcert_voters_total: MicroAlgos(u64_biased(r)),
        compactcert_next_round: Round(u64_biased(r)),
    }
}

pub fn block_header(r: &mut R) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.round = Round(u64_biased(r));
    h.branch = hash(r);
    h.seed = committee::Seed(arr32_biased(r));
    h.tx_root = hash(r);
    h.timestamp = u64_biased(r);
    h.genesis_id = text(r, 12);
    h.genesis_hash = hash(r);
    h.rewards_state = rewards_state(r);
    h.upgrade_state = upgrade_state(r);
    h.upgrade_vote = UpgradeVote { upgrade_propose: version(r), upgrade_delay: Round(u64_biased(r)), upgrade_approve: r.gen() };
    h.tx_counter = u64_biased(r);
    if r.gen() {
        h.compact_certs.insert(protocol::CompactCertType::Basic, cc_state(r));
    }
    h
}

pub fn teal_value(r: &mut R) -> TealValue {
    TealValue { teal_type: if r.gen() { TealType::Bytes } else { TealType::Uint }, bytes: vecb(r, 20), uint: u64_biased(r) }
}

pub fn teal_kv(r: &mut R) -> TealKeyValue {
    TealKeyValue::verif_new(list(r, 6, |r| (text(r, 6), teal_value(r))))
}

pub fn app_params(r: &mut R) -> AppParams {
    AppParams {
        approval_program: vecb(r, 30),
        clear_state_program: vecb(r, 30),
        global_state: teal_kv(r),
        state_schemas: StateSchemas { local_state_schema: schema(r), global_state_schema: schema(r) },
        extra_program_pages: r.gen_range(0, 5),
    }
}

pub fn status(r: &mut R) -> Status {
    *pick(r, &[Status::Offline, Status::Online, Status::NotParticipating])
}

pub fn account_data(r: &mut R) -> AccountData {
    let mut a = AccountData::default();
    a.status = status(r);
    a.micro_algos = MicroAlgos(u64_biased(r));
    a.rewards_base = u64_biased(r);
    a.rewarded_micro_algos = MicroAlgos(u64_biased(r));
    a.vote_id = pk(r);
    a.selection_id = vrf_pk(r);
    a.vote_first_valid = Round(u64_biased(r));
    a.vote_last_valid = Round(u64_biased(r));
    a.vote_key_dilution = u64_biased(r);
    a.asset_params = list(r, 5, |r| (u64_biased(r), asset_params(r))).into_iter().collect();
    a.assets = list(r, 9, |r| (u64_biased(r), AssetHolding { amount: u64_biased(r), frozen: r.gen() })).into_iter().collect();
    a.auth_addr = addr(r);
    a.app_local_states = list(r, 5, |r| (AppIndex(u64_biased(r)), AppLocalState { schema: schema(r), key_value: teal_kv(r) })).into_iter().collect();
    a.app_params = list(r, 4, |r| (AppIndex(u64_biased(r)), app_params(r))).into_iter().collect();
    a.total_app_schema = schema(r);
    a.total_extra_app_pages = r.gen_range(0, 9);
    a
}

// ---- single-field edits ----------------------------------------------------

pub struct Edit<T> {
    pub field: &'static str,
    pub apply: fn(&mut R, &mut T),
}

macro_rules! edits {
    ($t:ty; $( $name:ident => |$r:ident, $x:ident| $body:expr ),* $(,)?) => {
        vec![ $( Edit::<$t> { field: stringify!($name), apply: { fn f($r: &mut R, $x: &mut $t) { let _ = &$r; $body } f } } ),* ]
    };
}

fn flip(r: &mut R, b: &mut [u8]) {
    let i = r.gen_range(0, b.len());
    b[i] ^= 1 << r.gen_range(0, 8);
}

fn bump(r: &mut R, x: &mut u64) {
    let o = *x;
    *x = match r.gen_range(0, 6) {
        0 => o.wrapping_add(1),
        1 => o.wrapping_sub(1),
        2 => o ^ (1 << r.gen_range(0, 64)),
        3 => o.wrapping_add(256),
        4 => 0,
        _ => r.gen(),
    };
    if *x == o {
        *x = o.wrapping_add(1);
    }
}

fn bump32(r: &mut R, x: &mut u32) {
    let o = *x;
    *x ^= 1 << r.gen_range(0, 32);
    assert!(*x != o);
}

fn edit_bytes(r: &mut R, v: &mut Vec<u8>) {
    if v.is_empty() || r.gen_range(0, 4) == 0 {
        v.push(r.gen());
    } else if r.gen_range(0, 3) == 0 {
        v.pop();
    } else {
        flip(r, v);
    }
}

/// A different text that is close to the given one.
pub fn near_text(r: &mut R, s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    for _ in 0..8 {
        let mut x = v.clone();
        match r.gen_range(0, 7) {
            0 => { x.pop(); }
            1 => x.push(*pick(r, &['a', '\0', 'é', ' '])),
            2 => x.insert(0, *pick(r, &['a', '\0', 'é', ' '])),
            3 if !x.is_empty() => { x.remove(r.gen_range(0, v.len())); }
            4 if !x.is_empty() => { let i = r.gen_range(0, x.len()); x[i] = if x[i].is_ascii_uppercase() { x[i].to_ascii_lowercase() } else { x[i].to_ascii_uppercase() } }
            5 if !x.is_empty() => { let i = r.gen_range(0, x.len()); x[i] = *pick(r, &['a', 'b', '0', '_', 'é']) }
            _ if x.len() > 1 => { let (i, j) = (r.gen_range(0, x.len()), r.gen_range(0, x.len())); x.swap(i, j) }
            _ => (),
        }
        if x != v {
            return x.into_iter().collect();
        }
    }
    format!("{}.", s)
}

/// A different value that shares much with the given one.
pub fn near32(r: &mut R, h: &[u8; 32]) -> [u8; 32] {
    for _ in 0..8 {
        let mut x = *h;
        match r.gen_range(0, 6) {
            0 => x[31] ^= 1,
            1 => x[0] ^= 0x80,
            2 => x[16..].iter_mut().for_each(|b| *b = 0),
            3 => x[..16].iter_mut().for_each(|b| *b = 0),
            4 => x.swap(r.gen_range(0, 32), r.gen_range(0, 32)),
            _ => flip(r, &mut x),
        }
        if x != *h {
            return x;
        }
    }
    let mut x = *h;
    x[7] ^= 1;
    x
}

fn edit_text(r: &mut R, s: &mut String) {
    *s = near_text(r, s);
}

fn edit_pk(r: &mut R, p: &mut ed25519_dalek::PublicKey) {
    *p = keypair(r).public;
}

fn edit_vec<T: PartialEq + Clone>(r: &mut R, v: &mut Vec<T>, mk: fn(&mut R) -> T) {
    let o = v.clone();
    match r.gen_range(0, 5) {
        0 if !v.is_empty() => {
            v.remove(r.gen_range(0, o.len()));
        }
        1 if v.len() > 1 => v.swap(r.gen_range(0, o.len()), r.gen_range(0, o.len())),
        2 if !v.is_empty() => {
            let i = r.gen_range(0, o.len());
            v[i] = mk(r)
        }
        3 => {
            let x = mk(r);
            v.insert(r.gen_range(0, o.len() + 1), x);
        }
        _ => (),
    }
    if *v == o {
        let x = mk(r);
        v.push(x);
    }
}

fn edit_kv(r: &mut R, kv: &mut TealKeyValue) {
    let k = format!("{:?}", bytes(r, 9));
    *kv = TealKeyValue::verif_new(vec![(k, teal_value(r))]);
}

fn edit_schema(r: &mut R, s: &mut StateSchema) {
    if r.gen() {
        bump(r, &mut s.num_uint)
    } else {
        bump(r, &mut s.num_byte_slice)
    }
}

pub fn header_edits() -> Vec<Edit<Header>> {
    edits![Header;
        sender => |r, x| flip(r, &mut x.sender.0),
        fee => |r, x| bump(r, &mut x.fee.0),
        first_valid => |r, x| bump(r, &mut x.first_valid.0),
        last_valid => |r, x| bump(r, &mut x.last_valid.0),
        note => |r, x| edit_bytes(r, &mut x.note),
        genesis_id => |r, x| edit_text(r, &mut x.genesis_id),
        genesis_hash => |r, x| flip(r, &mut x.genesis_hash.0),
        group => |r, x| flip(r, &mut x.group.0),
        lease => |r, x| flip(r, &mut x.lease),
        rekey_to => |r, x| flip(r, &mut x.rekey_to.0),
        rounds_swapped => |r, x| { std::mem::swap(&mut x.first_valid, &mut x.last_valid); if x.first_valid == x.last_valid { bump(r, &mut x.last_valid.0) } },
        fee_and_round_swapped => |r, x| { std::mem::swap(&mut x.first_valid.0, &mut x.fee.0); if x.first_valid.0 == x.fee.0 { bump(r, &mut x.fee.0) } },
        group_and_genesis_swapped => |r, x| { std::mem::swap(&mut x.group, &mut x.genesis_hash); if x.group == x.genesis_hash { flip(r, &mut x.group.0) } },
        sender_and_rekey_swapped => |r, x| { std::mem::swap(&mut x.sender, &mut x.rekey_to); if x.sender == x.rekey_to { flip(r, &mut x.sender.0) } },
    ]
}

pub fn asset_param_edits() -> Vec<Edit<AssetParams>> {
    edits![AssetParams;
        total => |r, x| bump(r, &mut x.total),
        decimals => |r, x| bump32(r, &mut x.decimals),
        default_frozen => |r, x| x.default_frozen = !x.default_frozen,
        unit_name => |r, x| edit_text(r, &mut x.unit_name),
        asset_name => |r, x| edit_text(r, &mut x.asset_name),
        url => |r, x| edit_text(r, &mut x.url),
        metadata_hash => |r, x| flip(r, &mut x.metadata_hash),
        manager => |r, x| flip(r, &mut x.manager.0),
        reserve => |r, x| flip(r, &mut x.reserve.0),
        freeze => |r, x| flip(r, &mut x.freeze.0),
        clawback => |r, x| flip(r, &mut x.clawback.0),
    ]
}

/// Changes one field of the kind-specific part; returns its name.
pub fn edit_fields(r: &mut R, f: &mut TxFields, which: usize) -> &'static str {
    fn go<T>(r: &mut R, e: Vec<Edit<T>>, x: &mut T, which: usize) -> &'static str {
        let e = &e[which % e.len()];
        (e.apply)(r, x);
        e.field
    }
    match f {
        TxFields::Payment(x) => go(r, edits![PaymentFields;
            receiver => |r, x| flip(r, &mut x.receiver.0),
            amount => |r, x| bump(r, &mut x.amount.0),
            close_remainder_to => |r, x| x.close_remainder_to = match x.close_remainder_to { None => Some(Address(arr32(r))), Some(mut a) => { if r.gen() { None } else { flip(r, &mut a.0); Some(a) } } },
            receiver_becomes_close => |r, x| { let t = x.close_remainder_to; x.close_remainder_to = if x.receiver.is_zero() { None } else { Some(x.receiver) }; x.receiver = t.unwrap_or_default(); if t.unwrap_or_default() == x.close_remainder_to.unwrap_or_default() { bump(r, &mut x.amount.0) } },
        ], x, which),
        TxFields::Keyreg(x) => go(r, edits![KeyregFields;
            vote_pk => |r, x| edit_pk(r, &mut x.vote_pk),
            selection_pk => |r, x| x.selection_pk = VrfKeypair::from_seed(arr32(r)).public(),
            vote_first => |r, x| bump(r, &mut x.vote_first.0),
            vote_last => |r, x| bump(r, &mut x.vote_last.0),
            vote_key_dilution => |r, x| bump(r, &mut x.vote_key_dilution),
            nonparticipation => |r, x| x.nonparticipation = !x.nonparticipation,
        ], x, which),
        TxFields::AssetConfig(x) => {
            if which % 4 == 0 {
                bump(r, &mut x.config_asset);
                "config_asset"
            } else {
                go(r, asset_param_edits(), &mut x.asset_params, which / 4 + which)
            }
        }
        TxFields::AssetTransfer(x) => go(r, edits![AssetTransferFields;
            transfer_asset => |r, x| bump(r, &mut x.transfer_asset),
            asset_amount => |r, x| bump(r, &mut x.asset_amount),
            asset_sender => |r, x| flip(r, &mut x.asset_sender.0),
            asset_receiver => |r, x| flip(r, &mut x.asset_receiver.0),
            asset_close_to => |r, x| flip(r, &mut x.asset_close_to.0),
        ], x, which),
        TxFields::AssetFreeze(x) => go(r, edits![AssetFreezeFields;
            freeze_account => |r, x| flip(r, &mut x.freeze_account.0),
            freeze_asset => |r, x| bump(r, &mut x.freeze_asset),
            asset_frozen => |r, x| x.asset_frozen = !x.asset_frozen,
        ], x, which),
        TxFields::AppCall(x) => go(r, edits![AppCallFields;
            application_id => |r, x| bump(r, &mut x.application_id.0),
            on_completion => |r, x| { let o = format!("{:?}", protocol::encode(&x.on_completion)); while format!("{:?}", protocol::encode(&x.on_completion)) == o { x.on_completion = on_completion(r) } },
            application_args => |r, x| edit_vec(r, &mut x.application_args, |r| vecb(r, 5)),
            accounts => |r, x| edit_vec(r, &mut x.accounts, addr),
            foreign_apps => |r, x| edit_vec(r, &mut x.foreign_apps, |r| AppIndex(u64_biased(r))),
            foreign_assets => |r, x| edit_vec(r, &mut x.foreign_assets, u64_biased),
            local_state_schema => |r, x| edit_schema(r, &mut x.local_state_schema),
            global_state_schema => |r, x| edit_schema(r, &mut x.global_state_schema),
            approval_program => |r, x| edit_bytes(r, &mut x.approval_program),
            clear_state_program => |r, x| edit_bytes(r, &mut x.clear_state_program),
            extra_program_pages => |r, x| bump32(r, &mut x.extra_program_pages),
        ], x, which),
        TxFields::CompactCert(x) => {
            bump(r, &mut x.cert_round.0);
            "cert_round"
        }
    }
}

pub fn block_header_edits() -> Vec<Edit<BlockHeader>> {
    edits![BlockHeader;
        round => |r, x| bump(r, &mut x.round.0),
        branch => |r, x| flip(r, &mut x.branch.0),
        seed => |r, x| flip(r, &mut x.seed.0),
        tx_root => |r, x| flip(r, &mut x.tx_root.0),
        timestamp => |r, x| bump(r, &mut x.timestamp),
        genesis_id => |r, x| edit_text(r, &mut x.genesis_id),
        genesis_hash => |r, x| flip(r, &mut x.genesis_hash.0),
        fee_sink => |r, x| flip(r, &mut x.rewards_state.fee_sink.0),
        rewards_pool => |r, x| flip(r, &mut x.rewards_state.rewards_pool.0),
        rewards_level => |r, x| bump(r, &mut x.rewards_state.rewards_level),
        rewards_rate => |r, x| bump(r, &mut x.rewards_state.rewards_rate),
        rewards_residue => |r, x| bump(r, &mut x.rewards_state.rewards_residue),
        rewards_recalculation_round => |r, x| bump(r, &mut x.rewards_state.rewards_recalculation_round.0),
        current_protocol => |r, x| { let o = x.upgrade_state.current_protocol; while x.upgrade_state.current_protocol == o { x.upgrade_state.current_protocol = version(r) } },
        next_protocol => |r, x| { let o = x.upgrade_state.next_protocol; while x.upgrade_state.next_protocol == o { x.upgrade_state.next_protocol = if r.gen() { None } else { Some(version(r)) } } },
        next_protocol_approvals => |r, x| bump(r, &mut x.upgrade_state.next_protocol_approvals),
        next_protocol_vote_before => |r, x| bump(r, &mut x.upgrade_state.next_protocol_vote_before.0),
        next_protocol_switch_on => |r, x| bump(r, &mut x.upgrade_state.next_protocol_switch_on.0),
        upgrade_propose => |r, x| { let o = x.upgrade_vote.upgrade_propose; while x.upgrade_vote.upgrade_propose == o { x.upgrade_vote.upgrade_propose = version(r) } },
        upgrade_delay => |r, x| bump(r, &mut x.upgrade_vote.upgrade_delay.0),
        upgrade_approve => |r, x| x.upgrade_vote.upgrade_approve = !x.upgrade_vote.upgrade_approve,
        tx_counter => |r, x| bump(r, &mut x.tx_counter),
        compact_certs => |r, x| match x.compact_certs.get_mut(&protocol::CompactCertType::Basic) {
            Some(c) => match r.gen_range(0, 4) { 0 => flip(r, &mut c.compactcert_voters.0), 1 => bump(r, &mut c.compactcert_voters_total.0), 2 => bump(r, &mut c.compactcert_next_round.0), _ => { x.compact_certs.clear(); } },
            None => { let s = cc_state(r); x.compact_certs.insert(protocol::CompactCertType::Basic, s); }
        },
    ]
}

pub fn account_edits() -> Vec<Edit<AccountData>> {
    edits![AccountData;
        status => |r, x| { let o = x.status; while x.status == o { x.status = status(r) } },
        micro_algos => |r, x| bump(r, &mut x.micro_algos.0),
        rewards_base => |r, x| bump(r, &mut x.rewards_base),
        rewarded_micro_algos => |r, x| bump(r, &mut x.rewarded_micro_algos.0),
        vote_id => |r, x| edit_pk(r, &mut x.vote_id),
        selection_id => |r, x| x.selection_id = VrfKeypair::from_seed(arr32(r)).public(),
        vote_first_valid => |r, x| bump(r, &mut x.vote_first_valid.0),
        vote_last_valid => |r, x| bump(r, &mut x.vote_last_valid.0),
        vote_key_dilution => |r, x| bump(r, &mut x.vote_key_dilution),
        asset_params => |r, x| match x.asset_params.values_mut().next() { Some(p) if r.gen_range(0, 4) != 0 => { let e = asset_param_edits(); (pick(r, &e).apply)(r, p) } _ => { let k = r.gen(); let v = asset_params(r); x.asset_params.insert(k, v); } },
        assets => |r, x| match x.assets.values_mut().next() { Some(h) => if r.gen() { h.frozen = !h.frozen } else { bump(r, &mut h.amount) }, None => { let k = r.gen(); x.assets.insert(k, AssetHolding { amount: 0, frozen: false }); } },
        asset_moved => |r, x| { let k: u64 = r.gen(); let v = x.assets.keys().next().cloned().and_then(|i| x.assets.remove(&i)).unwrap_or(AssetHolding { amount: 0, frozen: false }); x.assets.insert(k, v); },
        auth_addr => |r, x| flip(r, &mut x.auth_addr.0),
        app_local_states => |r, x| match x.app_local_states.values_mut().next() {
            Some(s) if r.gen() => if r.gen() { edit_schema(r, &mut s.schema) } else { edit_kv(r, &mut s.key_value) },
            _ => { let k = AppIndex(r.gen()); let v = AppLocalState { schema: schema(r), key_value: teal_kv(r) }; x.app_local_states.insert(k, v); }
        },
        app_params => |r, x| match x.app_params.values_mut().next() {
            Some(p) if r.gen_range(0, 5) != 0 => match r.gen_range(0, 6) {
                0 => edit_bytes(r, &mut p.clear_state_program),
                1 => edit_bytes(r, &mut p.approval_program),
                2 => edit_schema(r, &mut p.state_schemas.local_state_schema),
                3 => edit_schema(r, &mut p.state_schemas.global_state_schema),
                4 => bump32(r, &mut p.extra_program_pages),
                _ => edit_kv(r, &mut p.global_state)
            },
            _ => { let k = AppIndex(r.gen()); let v = app_params(r); x.app_params.insert(k, v); }
        },
        total_app_schema => |r, x| edit_schema(r, &mut x.total_app_schema),
        total_extra_app_pages => |r, x| bump32(r, &mut x.total_extra_app_pages),
    ]
}

pub fn edit_tx(r: &mut R, t: &mut Transaction) -> &'static str {
    if r.gen() {
        let e = header_edits();
        let e = pick(r, &e);
        (e.apply)(r, &mut t.header);
        e.field
    } else {
        let w = r.gen_range(0, 1000);
        edit_fields(r, &mut t.fields, w)
    }
}
