//! Structured data: every model type can be shown as a flat list of its parts in the order of its encoding,
//! and made from random parts.
use std::num::{NonZeroU16, NonZeroU32};

use tycho_types::cell::{CellSliceParts, Lazy, Load, Store};
use tycho_types::dict::{AugDict, Dict};
use tycho_types::error::Error;
use tycho_types::merkle::MerkleUpdate;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::util::*;

/// Collects the parts of a value.
pub struct X<'a> {
    pub out: Vec<String>,
    pub it: &'a mut Interner,
}
impl X<'_> {
    pub fn s(&mut self, s: impl Into<String>) {
        self.out.push(s.into());
    }
    fn n(&mut self, v: u128, w: usize) {
        self.out.push(u128_bits(v, w));
    }
    pub fn cell(&mut self, c: &Cell) {
        let k = self.it.add(c);
        self.out.push(format!("#{k}"));
    }
}
/// Makes random values.
pub struct G {
    pub r: Rng,
    pub pool: Vec<Cell>,
    /// How large addresses and amounts may be.
    pub small: bool,
    /// Whether what is in other cells is of its type too.
    pub valid: bool,
}
impl G {
    pub fn new(r: Rng) -> Self {
        let mut g = G { r, pool: vec![Cell::default()], small: false, valid: false };
        for _ in 0..3 {
            let c = rand_cell(&mut g.r, 1, 60);
            g.pool.push(c);
        }
        g
    }
    fn num(&mut self, w: usize) -> u128 {
        bits_u128(&match self.r.below(8) {
            0 => "0".repeat(w),
            1 => "1".repeat(w),
            2 => format!("{}1", "0".repeat(w - 1)),
            3 => self.r.runs(w),
            _ => self.r.bits(w),
        })
    }
    /// A number of at most w bits, of any length.
    fn short(&mut self, w: usize) -> u128 {
        let n = if self.small { self.r.below(w / 4) } else { self.r.below(w + 1) };
        bits_u128(&self.r.mixed_bits(n))
    }
    pub fn plain(&mut self) -> Cell {
        self.r.pick(&self.pool).clone()
    }
    /// Any cell, now and then an exotic one.
    pub fn any(&mut self) -> Cell {
        if self.r.chance(1, 6) { exotic(&mut self.r) } else { self.plain() }
    }
    fn flip(&mut self) -> bool {
        self.r.flip()
    }
    fn arm(&mut self, n: usize) -> usize {
        self.r.below(n)
    }
}
pub fn exotic(r: &mut Rng) -> Cell {
    let mut b = CellBuilder::new();
    if r.flip() {
        store_bits(&mut b, "00000010").unwrap();
        store_bits(&mut b, &r.bits(256)).unwrap();
    } else {
        store_bits(&mut b, "0000000100000001").unwrap();
        store_bits(&mut b, &r.bits(256)).unwrap();
        store_bits(&mut b, "0000000000000010").unwrap();
    }
    b.set_exotic(true);
    b.build().unwrap()
}

pub trait D: Sized {
    fn d(&self, x: &mut X<'_>);
    fn g(g: &mut G) -> Self;
}
macro_rules! uint {
    ($($t:ty, $w:literal;)*) => {$(impl D for $t {
        fn d(&self, x: &mut X<'_>) { x.n(*self as u128, $w) }
        fn g(g: &mut G) -> Self { g.num($w) as $t }
    })*}
}
uint! { u8, 8; u16, 16; u32, 32; u64, 64; i8, 8; i32, 32; }
macro_rules! inner {
    ($($t:ident, $w:literal, $m:expr;)*) => {$(impl D for $t {
        fn d(&self, x: &mut X<'_>) { x.n(self.into_inner() as u128, $w) }
        fn g(g: &mut G) -> Self { $t::new(g.short($m) as _) }
    })*}
}
inner! { VarUint24, 32, 24; VarUint56, 64, 56; Tokens, 128, 120; Uint15, 16, 15; Uint12, 16, 12; }
impl D for VarUint248 {
    fn d(&self, x: &mut X<'_>) {
        let (hi, lo) = (*self).into_words();
        x.s(format!("{}{}", u128_bits(hi, 128), u128_bits(lo, 128)));
    }
    fn g(g: &mut G) -> Self {
        let hi = if g.flip() { 0 } else { g.short(120) };
        VarUint248::from_words(hi, g.short(128))
    }
}
impl D for SplitDepth {
    fn d(&self, x: &mut X<'_>) {
        x.n(self.into_bit_len() as u128, 8)
    }
    fn g(g: &mut G) -> Self {
        SplitDepth::new(g.r.range(1, 30) as u8).unwrap()
    }
}
impl D for NonZeroU32 {
    fn d(&self, x: &mut X<'_>) {
        x.n(self.get() as u128, 32)
    }
    fn g(g: &mut G) -> Self {
        NonZeroU32::new((g.num(32) as u32).max(1)).unwrap()
    }
}
impl D for bool {
    fn d(&self, x: &mut X<'_>) {
        x.n(*self as u128, 1)
    }
    fn g(g: &mut G) -> Self {
        g.flip()
    }
}
impl D for HashBytes {
    fn d(&self, x: &mut X<'_>) {
        x.s(bytes_to_bits(&self.0, 256))
    }
    fn g(g: &mut G) -> Self {
        HashBytes(match g.r.below(5) {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => g.r.hash(),
        })
    }
}
impl<T: D> D for Option<T> {
    fn d(&self, x: &mut X<'_>) {
        x.n(self.is_some() as u128, 1);
        if let Some(v) = self {
            v.d(x);
        }
    }
    fn g(g: &mut G) -> Self {
        g.flip().then(|| T::g(g))
    }
}
impl<A: D, B: D> D for (A, B) {
    fn d(&self, x: &mut X<'_>) {
        self.0.d(x);
        self.1.d(x);
    }
    fn g(g: &mut G) -> Self {
        (A::g(g), B::g(g))
    }
}
impl D for () {
    fn d(&self, _: &mut X<'_>) {}
    fn g(_: &mut G) -> Self {}
}
impl D for Cell {
    fn d(&self, x: &mut X<'_>) {
        x.cell(self)
    }
    fn g(g: &mut G) -> Self {
        g.any()
    }
}
impl<T> D for Lazy<T> {
    fn d(&self, x: &mut X<'_>) {
        x.cell(self.inner())
    }
    fn g(g: &mut G) -> Self {
        let inner = if g.valid { lazy_content(g, std::any::type_name::<T>()) } else { None };
        Lazy::from_raw(inner.unwrap_or_else(|| g.plain())).unwrap()
    }
}
/// A cell with a value of the type.
fn lazy_content(g: &mut G, name: &str) -> Option<Cell> {
    let small = std::mem::replace(&mut g.small, true);
    let c = match name.rsplit("::").next().unwrap() {
        "ConfigProposalSetup" => CellBuilder::build_from(ConfigProposalSetup::g(g)),
        "BlockRef" => CellBuilder::build_from(BlockRef::g(g)),
        "HashUpdate" => CellBuilder::build_from(HashUpdate::g(g)),
        "TxInfo" => CellBuilder::build_from(TxInfo::g(g)),
        "OptionalAccount" => CellBuilder::build_from(OptionalAccount::g(g)),
        "BlockInfo" => CellBuilder::build_from(BlockInfo::g(g)),
        "ValueFlow" => CellBuilder::build_from(ValueFlow::g(g)),
        "OwnedMessage" => message(g),
        "MsgEnvelope" => CellBuilder::build_from(MsgEnvelope::g(g)),
        "Transaction" => CellBuilder::build_from(Transaction::g(g)),
        "InMsg" => CellBuilder::build_from(InMsg::g(g)),
        "McBlockExtra" => CellBuilder::build_from(McBlockExtra::g(g)),
        "BlockExtra" => CellBuilder::build_from(BlockExtra::g(g)),
        _ => return None,
    };
    g.small = small;
    c.ok()
}
/// A message with a small body.
pub fn message(g: &mut G) -> Result<Cell, Error> {
    let small = std::mem::replace(&mut g.small, true);
    let init: Option<StateInit> = g.r.chance(1, 3).then(|| D::g(g));
    let n = g.r.below(60);
    let mut b = CellBuilder::new();
    store_bits(&mut b, &g.r.bits(n)).unwrap();
    for _ in 0..g.r.below(3) {
        b.store_reference(g.plain()).unwrap();
    }
    let c = b.build().unwrap();
    let info = MsgInfo::g(g);
    g.small = small;
    CellBuilder::build_from(OwnedMessage { info, init, body: CellSliceParts::from(c), layout: None })
}
impl<T> D for Lazy<T, true> {
    fn d(&self, x: &mut X<'_>) {
        x.cell(self.inner())
    }
    fn g(g: &mut G) -> Self {
        Lazy::from_raw(exotic(&mut g.r)).unwrap()
    }
}
fn dict(root: &Option<Cell>, x: &mut X<'_>) {
    match root {
        None => x.s("-"),
        Some(c) => x.cell(c),
    }
}
impl<K, V> D for Dict<K, V> {
    fn d(&self, x: &mut X<'_>) {
        dict(self.root(), x)
    }
    fn g(g: &mut G) -> Self {
        if g.valid { dict_content(g, std::any::type_name::<(K, V)>()).map_or_else(Dict::new, |c| Dict::from(Some(c))) } else { Dict::from(g.flip().then(|| g.any())) }
    }
}
/// The root of a dictionary of the type.
fn dict_content(g: &mut G, name: &str) -> Option<Cell> {
    let n = g.r.below(4);
    match name.replace("tycho_types::", "").split("::").last().unwrap() {
        "VarUint248)" => {
            let mut d = Dict::<u32, VarUint248>::new();
            for _ in 0..n {
                d.set(u32::g(g), VarUint248::g(g)).unwrap();
            }
            d.into_root()
        }
        "Cell)" => {
            let mut d = Dict::<Uint15, Cell>::new();
            for k in 0..n {
                if let Ok(c) = message(g) {
                    d.set(Uint15::new(k as u16 * 7), c).unwrap();
                }
            }
            d.into_root()
        }
        "SimpleLib)" => {
            let mut d = Dict::<HashBytes, SimpleLib>::new();
            for _ in 0..n {
                d.set(HashBytes::g(g), SimpleLib { public: g.flip(), root: g.plain() }).unwrap();
            }
            d.into_root()
        }
        _ => None,
    }
}
impl<K, A: D + Default, V> D for AugDict<K, A, V> {
    fn d(&self, x: &mut X<'_>) {
        dict(self.dict().root(), x);
        self.root_extra().d(x);
    }
    fn g(g: &mut G) -> Self {
        AugDict::from_parts(Dict::g(g), A::g(g))
    }
}
impl D for CellSliceParts {
    fn d(&self, x: &mut X<'_>) {
        let v = x.it.parts(self);
        x.s(js(&v[0]));
        x.s(v[1].as_array().unwrap().iter().map(|k| format!("#{k}")).collect::<String>());
    }
    fn g(g: &mut G) -> Self {
        let n = if g.flip() { g.r.below(40) } else { g.r.below(1024) };
        let mut b = CellBuilder::new();
        store_bits(&mut b, &g.r.bits(n)).unwrap();
        for _ in 0..g.r.below(5) {
            b.store_reference(g.any()).unwrap();
        }
        let mut c = CellSliceParts::from(b.build().unwrap());
        let (skip, refs) = (if g.flip() { g.r.below(n + 1) } else { 0 }, if g.flip() { 0 } else { g.r.below(c.0.size_refs() as usize + 1) });
        c.0 = { let mut s = c.0; s = range_skip(s, &c.1, skip as u16, refs as u8); s };
        c
    }
}
fn range_skip(r: CellSliceRange, c: &Cell, bits: u16, refs: u8) -> CellSliceRange {
    let mut s = r.apply_allow_exotic(c);
    s.skip_first(bits, refs).unwrap();
    s.range()
}
macro_rules! st {
    ($($t:ident { $($f:ident),* })*) => {$(impl D for $t {
        fn d(&self, x: &mut X<'_>) { $(self.$f.d(x);)* }
        fn g(g: &mut G) -> Self { $(let $f = D::g(g);)* $t { $($f),* } }
    })*}
}
/// Newtypes and other types made from one part.
macro_rules! wrap {
    ($($t:ident, $v:ident => $get:expr, $p:ident => $make:expr;)*) => {$(impl D for $t {
        fn d(&self, x: &mut X<'_>) { let $v = self; ($get).d(x) }
        fn g(g: &mut G) -> Self { let $p = D::g(g); $make }
    })*}
}
/// Enumerations: `Name` or `Name(content)`.
macro_rules! en {
    ($($t:ident { $($v:ident $(($c:ident))?),* })*) => {$(impl D for $t {
        #[allow(unused_variables)]
        fn d(&self, x: &mut X<'_>) {
            match self { $($t::$v $(($c))? => { x.s(concat!("=", stringify!($v))); $($c.d(x);)? })* }
        }
        fn g(g: &mut G) -> Self {
            let n = [$(stringify!($v)),*].len();
            let k = g.arm(n);
            let mut i = 0;
            $( if k == i { return $t::$v $(({ let $c = D::g(g); $c }))?; } i += 1; )*
            let _ = i;
            unreachable!()
        }
    })*}
}

st! {
    StorageUsed { cells, bits }
    StorageUsedShort { cells, bits }
    StorageInfo { used, storage_extra, last_paid, due_payment }
    ShardAccount { account, last_trans_hash, last_trans_lt }
    Account { address, storage_stat, last_trans_lt, balance, state }
    StateInit { split_depth, special, code, data, libraries }
    SpecialFlags { tick, tock }
    SimpleLib { public, root }
    OrdinaryTxInfo { credit_first, storage_phase, credit_phase, compute_phase, action_phase, aborted, bounce_phase, destroyed }
    TickTockTxInfo { kind, storage_phase, compute_phase, action_phase, aborted, destroyed }
    HashUpdate { old, new }
    StoragePhase { storage_fees_collected, storage_fees_due, status_change }
    CreditPhase { due_fees_collected, credit }
    ExecutedComputePhase { success, msg_state_used, account_activated, gas_fees, gas_used, gas_limit, gas_credit, mode, exit_code, exit_arg, vm_steps, vm_init_state_hash, vm_final_state_hash }
    SkippedComputePhase { reason }
    ActionPhase { success, valid, no_funds, status_change, total_fwd_fees, total_action_fees, result_code, result_arg, total_actions, special_actions, skipped_actions, messages_created, action_list_hash, total_message_size }
    NoFundsBouncePhase { msg_size, req_fwd_fees }
    ExecutedBouncePhase { msg_size, msg_fees, fwd_fees }
    IntermediateAddrSimple { workchain, address_prefix }
    IntermediateAddrExt { workchain, address_prefix }
    MsgEnvelope { cur_addr, next_addr, fwd_fee_remaining, message }
    ImportFees { fees_collected, value_imported }
    InMsgExternal { in_msg, transaction }
    InMsgFinal { in_msg_envelope, transaction, fwd_fee }
    InMsgTransit { in_msg_envelope, out_msg_envelope, transit_fee }
    EnqueuedMsg { enqueued_lt, out_msg_envelope }
    OutMsgExternal { out_msg, transaction }
    OutMsgImmediate { out_msg_envelope, transaction, reimport }
    OutMsgNew { out_msg_envelope, transaction }
    OutMsgDequeueImmediate { out_msg_envelope, reimport }
    OutMsgDequeueShort { msg_env_hash, next_workchain, next_addr_pfx, import_block_lt }
    IntMsgInfo { ihr_disabled, bounce, bounced, src, dst, value, ihr_fee, fwd_fee, created_lt, created_at }
    CurrencyCollection { tokens, other }
    GlobalVersion { version, capabilities }
    BlockExtra { in_msg_description, out_msg_description, account_blocks, rand_seed, created_by, custom }
    ShardIdentFull { workchain, prefix }
    ShardFeeCreated { fees, create }
    BlockSignature { node_id_short, signature }
    BlockId { shard, seqno, root_hash, file_hash }
    BlockProof { proof_for, root, signatures }
    BlockSignatures { validator_info, signature_count, total_weight, signatures }
    BlockRef { end_lt, seqno, root_hash, file_hash }
    ValueFlow { from_prev_block, to_next_block, imported, exported, fees_collected, burned, fees_imported, recovered, created, minted }
    ShardDescription { seqno, reg_mc_seqno, start_lt, end_lt, root_hash, file_hash, before_split, before_merge, want_split, want_merge, nx_cc_updated, next_catchain_seqno, next_validator_shard, min_ref_mc_seqno, gen_utime, split_merge_at, fees_collected, funds_created }
    ShardStateUnsplit { global_id, shard_ident, seqno, vert_seqno, gen_utime, gen_lt, min_ref_mc_seqno, out_msg_queue_info, before_split, accounts, overload_history, underload_history, total_balance, total_validator_fees, libraries, master_ref, custom }
    ShardStateSplit { left, right }
    ValidatorInfo { validator_list_hash_short, catchain_seqno, nx_cc_updated }
    ValidatorBaseInfo { validator_list_hash_short, catchain_seqno }
    ConsensusInfo { vset_switch_round, prev_vset_switch_round, genesis_info, prev_shuffle_mc_validators }
    GenesisInfo { start_round, genesis_millis }
    KeyBlockRef { is_key_block, block_ref }
    KeyMaxLt { has_key_block, max_end_lt }
    CreatorStats { mc_blocks, shard_blocks }
    BlockCounters { updated_at, total, cnt2048, cnt65536 }
    BlockchainConfig { address, params }
    MintOnceConfig { mint_at, delta }
    ConfigVotingSetup { normal_params, critical_params }
    ConfigProposalSetup { min_total_rounds, max_total_rounds, min_wins, max_losses, min_store_sec, max_store_sec, bit_price, cell_price }
    WorkchainFormatBasic { vm_version, vm_mode }
    BlockCreationRewards { masterchain_block_fee, basechain_block_fee }
    ElectionTimings { validators_elected_for, elections_start_before, elections_end_before, stake_held_for }
    ValidatorCountParams { max_validators, max_main_validators, min_validators }
    ValidatorStakeParams { min_stake, max_stake, min_total_stake, max_stake_factor }
    StoragePrices { utime_since, bit_price_ps, cell_price_ps, mc_bit_price_ps, mc_cell_price_ps }
    GasLimitsPrices { flat_gas_limit, flat_gas_price, gas_price, gas_limit, special_gas_limit, gas_credit, block_gas_limit, freeze_due_limit, delete_due_limit }
    BlockLimits { bytes, gas, lt_delta }
    MsgForwardPrices { lump_price, bit_price, cell_price, ihr_price_factor, first_frac, next_frac }
    CatchainConfig { isolate_mc_validators, shuffle_mc_validators, mc_catchain_lifetime, shard_catchain_lifetime, shard_validators_lifetime, shard_validators_num }
    ConsensusConfig { new_catchain_ids, round_candidates, next_candidate_delay_ms, consensus_timeout_ms, fast_attempts, attempt_duration, catchain_max_deps, max_block_bytes, max_collated_bytes }
    Versioned { a, b, c, d, e }
    Tagged { a, b, c }
    SizeLimitsConfig { max_msg_bits, max_msg_cells, max_library_cells, max_vm_data_depth, max_ext_msg_size, max_ext_msg_depth, max_acc_state_cells, max_acc_state_bits, max_acc_public_libraries, defer_out_queue_size_limit }
}
wrap! {
    OptionalAccount, v => v.0, p => OptionalAccount(p);
    ExtraCurrencyCollection, v => *v.as_dict(), p => ExtraCurrencyCollection::from_raw(Dict::<u32, VarUint248>::into_root(p));
    GlobalCapabilities, v => v.into_inner(), p => GlobalCapabilities::new(p);
    ShardHashes, v => *v.as_dict(), p => ShardHashes::from_dict(p);
    SendMsgFlags, v => v.bits(), p => SendMsgFlags::from_bits_retain(p);
    ReserveCurrencyFlags, v => v.bits(), p => ReserveCurrencyFlags::from_bits_retain(p);
}
en! {
    StorageExtra { None, DictHash(h) }
    AccountStatus { Uninit, Frozen, Active, NotExists }
    AccountState { Uninit, Active(s), Frozen(h) }
    TxInfo { Ordinary(i), TickTock(i) }
    TickTock { Tick, Tock }
    ComputePhase { Skipped(p), Executed(p) }
    ComputePhaseSkipReason { NoState, BadState, NoGas, Suspended }
    BouncePhase { NegativeFunds, NoFunds(p), Executed(p) }
    AccountStatusChange { Unchanged, Frozen, Deleted }
    IntermediateAddr { Regular(a), Simple(a), Ext(a) }
    InMsg { External(m), Immediate(m), Final(m), Transit(m) }
    OutMsg { External(m), New(m), Immediate(m), DequeueImmediate(m), DequeueShort(m) }
    MsgInfo { Int(i), ExtIn(i), ExtOut(i) }
    RelaxedMsgInfo { Int(i), ExtOut(i) }
    ShardState { Unsplit(s), Split(s) }
    WorkchainFormat { Basic(f), Extended(f) }
    LibRef { Hash(h), Cell(c) }
}
fn any_bits(a: &Option<Box<Anycast>>) -> String {
    a.as_ref().map_or("-".to_owned(), |a| bytes_to_bits(&a.rewrite_prefix, a.depth.into_bit_len() as usize))
}
fn gen_any(g: &mut G) -> Option<Box<Anycast>> {
    if g.valid || !g.r.chance(1, 4) {
        return None;
    }
    let n = g.r.range(1, 30);
    let v = g.r.bits(n);
    Some(Box::new(Anycast { depth: SplitDepth::new(n as u8).unwrap(), rewrite_prefix: bits_to_bytes(&v) }))
}
impl D for IntAddr {
    fn d(&self, x: &mut X<'_>) {
        match self {
            IntAddr::Std(a) => {
                x.s("std");
                x.s(any_bits(&a.anycast));
                x.n(a.workchain as u8 as u128, 8);
                a.address.d(x);
            }
            IntAddr::Var(a) => {
                x.s("var");
                x.s(any_bits(&a.anycast));
                x.n(a.workchain as u32 as u128, 32);
                x.s(bytes_to_bits(&a.address, a.address_len.into_inner() as usize));
            }
        }
    }
    fn g(g: &mut G) -> Self {
        if !g.valid && g.r.chance(1, 4) {
            let n = if g.small { g.r.below(40) } else { g.r.below(512) };
            let v = g.r.bits(n);
            IntAddr::Var(VarAddr { anycast: gen_any(g), address_len: Uint9::new(n as u16), workchain: D::g(g), address: bits_to_bytes(&v) })
        } else {
            IntAddr::Std(StdAddr { anycast: gen_any(g), workchain: D::g(g), address: D::g(g) })
        }
    }
}
impl D for ExtAddr {
    fn d(&self, x: &mut X<'_>) {
        x.s("ext");
        x.s("-");
        x.s("");
        x.s(bytes_to_bits(&self.data, self.data_bit_len.into_inner() as usize));
    }
    fn g(g: &mut G) -> Self {
        let n = if g.small { g.r.below(40) } else { g.r.below(512) };
        let v = g.r.bits(n);
        ExtAddr { data_bit_len: Uint9::new(n as u16), data: bits_to_bytes(&v) }
    }
}
/// An optional address: the absent one is an address of its own.
fn opt_addr<T: D>(a: &Option<T>, x: &mut X<'_>) {
    match a {
        Some(a) => a.d(x),
        None => ["none", "-", "", ""].map(|v| x.s(v)).into_iter().collect(),
    }
}
impl D for RelaxedIntMsgInfo {
    fn d(&self, x: &mut X<'_>) {
        self.ihr_disabled.d(x);
        self.bounce.d(x);
        self.bounced.d(x);
        opt_addr(&self.src, x);
        self.dst.d(x);
        self.value.d(x);
        self.ihr_fee.d(x);
        self.fwd_fee.d(x);
        self.created_lt.d(x);
        self.created_at.d(x);
    }
    fn g(g: &mut G) -> Self {
        RelaxedIntMsgInfo { ihr_disabled: D::g(g), bounce: D::g(g), bounced: D::g(g), src: D::g(g), dst: D::g(g), value: D::g(g), ihr_fee: D::g(g), fwd_fee: D::g(g), created_lt: D::g(g), created_at: D::g(g) }
    }
}
impl D for ExtInMsgInfo {
    fn d(&self, x: &mut X<'_>) {
        opt_addr(&self.src, x);
        self.dst.d(x);
        self.import_fee.d(x);
    }
    fn g(g: &mut G) -> Self {
        ExtInMsgInfo { src: D::g(g), dst: D::g(g), import_fee: D::g(g) }
    }
}
impl D for ExtOutMsgInfo {
    fn d(&self, x: &mut X<'_>) {
        self.src.d(x);
        opt_addr(&self.dst, x);
        self.created_lt.d(x);
        self.created_at.d(x);
    }
    fn g(g: &mut G) -> Self {
        ExtOutMsgInfo { src: D::g(g), dst: D::g(g), created_lt: D::g(g), created_at: D::g(g) }
    }
}
impl D for RelaxedExtOutMsgInfo {
    fn d(&self, x: &mut X<'_>) {
        opt_addr(&self.src, x);
        opt_addr(&self.dst, x);
        self.created_lt.d(x);
        self.created_at.d(x);
    }
    fn g(g: &mut G) -> Self {
        RelaxedExtOutMsgInfo { src: D::g(g), dst: D::g(g), created_lt: D::g(g), created_at: D::g(g) }
    }
}
impl D for IntermediateAddrRegular {
    fn d(&self, x: &mut X<'_>) {
        x.n(self.use_dest_bits() as u128, 8)
    }
    fn g(g: &mut G) -> Self {
        IntermediateAddrRegular::with_dest_bits(g.r.range(0, 96) as u8).unwrap()
    }
}
impl D for Signature {
    fn d(&self, x: &mut X<'_>) {
        x.s(bytes_to_bits(&self.0, 512))
    }
    fn g(g: &mut G) -> Self {
        Signature(g.r.bytes(64).try_into().unwrap())
    }
}
impl D for ShardIdent {
    fn d(&self, x: &mut X<'_>) {
        self.workchain().d(x);
        self.prefix().d(x);
    }
    fn g(g: &mut G) -> Self {
        let wc: i32 = D::g(g);
        let n = if wc == -1 { 0 } else { g.r.range(0, 60) };
        let p = format!("{}1{}", g.r.mixed_bits(n), "0".repeat(63 - n));
        ShardIdent::new(wc, bits_u64(&p)).unwrap()
    }
}
impl D for FutureSplitMerge {
    fn d(&self, x: &mut X<'_>) {
        let (n, a, b) = match self {
            Self::Split { split_utime, interval } => ("=Split", split_utime, interval),
            Self::Merge { merge_utime, interval } => ("=Merge", merge_utime, interval),
        };
        x.s(n);
        a.d(x);
        b.d(x);
    }
    fn g(g: &mut G) -> Self {
        let (a, interval) = D::g(g);
        if g.flip() { Self::Split { split_utime: a, interval } } else { Self::Merge { merge_utime: a, interval } }
    }
}
impl D for Transaction {
    fn d(&self, x: &mut X<'_>) {
        self.account.d(x);
        self.lt.d(x);
        self.prev_trans_hash.d(x);
        self.prev_trans_lt.d(x);
        self.now.d(x);
        self.out_msg_count.d(x);
        self.orig_status.d(x);
        self.end_status.d(x);
        self.in_msg.d(x);
        self.out_msgs.d(x);
        self.total_fees.d(x);
        self.state_update.d(x);
        self.info.d(x);
    }
    fn g(g: &mut G) -> Self {
        let in_msg = if g.valid { g.flip().then(|| message(g).unwrap_or_default()) } else { D::g(g) };
        Transaction { account: D::g(g), lt: D::g(g), prev_trans_hash: D::g(g), prev_trans_lt: D::g(g), now: D::g(g), out_msg_count: D::g(g), orig_status: D::g(g), end_status: D::g(g), in_msg, out_msgs: D::g(g), total_fees: D::g(g), state_update: D::g(g), info: D::g(g) }
    }
}
impl D for McBlockExtra {
    fn d(&self, x: &mut X<'_>) {
        self.config.is_some().d(x);
        self.shards.d(x);
        self.fees.d(x);
        self.prev_block_signatures.d(x);
        self.recover_create_msg.d(x);
        self.mint_msg.d(x);
        if let Some(c) = &self.config {
            c.d(x);
        }
    }
    fn g(g: &mut G) -> Self {
        McBlockExtra { shards: D::g(g), fees: D::g(g), prev_block_signatures: D::g(g), recover_create_msg: D::g(g), mint_msg: D::g(g), config: D::g(g) }
    }
}
impl D for Block {
    fn d(&self, x: &mut X<'_>) {
        x.s(if self.out_msg_queue_updates.is_some() { "=Updates" } else { "=Plain" });
        self.global_id.d(x);
        self.info.d(x);
        self.value_flow.d(x);
        self.state_update.d(x);
        if let Some(u) = &self.out_msg_queue_updates {
            u.d(x);
        }
        self.extra.d(x);
    }
    fn g(g: &mut G) -> Self {
        Block { global_id: D::g(g), info: D::g(g), value_flow: D::g(g), state_update: <Lazy<MerkleUpdate, true> as D>::g(g), out_msg_queue_updates: D::g(g), extra: D::g(g) }
    }
}
impl D for BlockInfo {
    fn d(&self, x: &mut X<'_>) {
        self.version.d(x);
        self.master_ref.is_some().d(x);
        for b in [self.after_merge, self.before_split, self.after_split, self.want_split, self.want_merge, self.key_block] {
            b.d(x);
        }
        self.prev_vert_ref.is_some().d(x);
        self.flags.d(x);
        self.seqno.d(x);
        self.vert_seqno.d(x);
        self.shard.d(x);
        self.gen_utime.d(x);
        self.start_lt.d(x);
        self.end_lt.d(x);
        self.gen_validator_list_hash_short.d(x);
        self.gen_catchain_seqno.d(x);
        self.min_ref_mc_seqno.d(x);
        self.prev_key_block_seqno.d(x);
        if self.flags & 1 != 0 {
            self.gen_software.d(x);
        } else if self.gen_software != GlobalVersion::default() {
            x.s("software without its flag");
        }
        if let Some(r) = &self.master_ref {
            r.d(x);
        }
        self.prev_ref.d(x);
        if let Some(r) = &self.prev_vert_ref {
            r.d(x);
        }
    }
    fn g(g: &mut G) -> Self {
        let flags: u8 = D::g(g);
        let after_merge = g.flip();
        let prev_ref = match (g.valid, after_merge) {
            (false, _) => Cell::g(g),
            (true, false) => lazy_content(g, "BlockRef").unwrap(),
            (true, true) => CellBuilder::build_from((lazy_content(g, "BlockRef").unwrap(), lazy_content(g, "BlockRef").unwrap())).unwrap(),
        };
        BlockInfo {
            version: D::g(g),
            after_merge,
            before_split: D::g(g),
            after_split: D::g(g),
            want_split: D::g(g),
            want_merge: D::g(g),
            key_block: D::g(g),
            flags,
            seqno: u32::max(1, D::g(g)),
            vert_seqno: u32::max(1, D::g(g)),
            shard: D::g(g),
            gen_utime: D::g(g),
            start_lt: D::g(g),
            end_lt: D::g(g),
            gen_validator_list_hash_short: D::g(g),
            gen_catchain_seqno: D::g(g),
            min_ref_mc_seqno: D::g(g),
            prev_key_block_seqno: D::g(g),
            gen_software: if flags & 1 != 0 { D::g(g) } else { GlobalVersion::default() },
            master_ref: D::g(g),
            prev_ref,
            prev_vert_ref: D::g(g),
        }
    }
}
impl D for DepthBalanceInfo {
    fn d(&self, x: &mut X<'_>) {
        self.split_depth.d(x);
        self.balance.d(x);
    }
    fn g(g: &mut G) -> Self {
        DepthBalanceInfo { split_depth: g.r.range(0, 30) as u8, balance: D::g(g) }
    }
}
impl D for LibDescr {
    fn d(&self, x: &mut X<'_>) {
        self.lib.d(x);
        self.publishers.d(x);
    }
    fn g(g: &mut G) -> Self {
        let mut publishers = Dict::new();
        for _ in 0..g.r.range(1, 3) {
            publishers.set(HashBytes::g(g), ()).unwrap();
        }
        LibDescr { lib: D::g(g), publishers }
    }
}
impl D for AccountBlock {
    fn d(&self, x: &mut X<'_>) {
        self.account.d(x);
        self.transactions.d(x);
        self.state_update.d(x);
    }
    fn g(g: &mut G) -> Self {
        let mut t = AugDict::new();
        for _ in 0..g.r.range(1, 3) {
            let k: u64 = D::g(g);
            t.set(k, CurrencyCollection { tokens: Tokens::new(g.short(60)), other: ExtraCurrencyCollection::new() }, Lazy::<Transaction>::g(g)).unwrap();
        }
        AccountBlock { account: D::g(g), transactions: t, state_update: D::g(g) }
    }
}
/// The configuration has a root.
impl D for BlockchainConfigParams {
    fn d(&self, x: &mut X<'_>) {
        x.cell(self.as_dict().root().as_ref().expect("no root"))
    }
    fn g(g: &mut G) -> Self {
        BlockchainConfigParams::from_raw(g.any())
    }
}
impl D for McStateExtra {
    fn d(&self, x: &mut X<'_>) {
        self.shards.d(x);
        self.config.d(x);
        self.block_create_stats.is_some().d(x);
        self.validator_info.d(x);
        self.prev_blocks.d(x);
        self.after_key_block.d(x);
        self.last_key_block.d(x);
        if let Some(s) = &self.block_create_stats {
            s.d(x);
        }
        self.global_balance.d(x);
    }
    fn g(g: &mut G) -> Self {
        McStateExtra { shards: D::g(g), config: D::g(g), validator_info: D::g(g), prev_blocks: D::g(g), after_key_block: D::g(g), last_key_block: D::g(g), block_create_stats: D::g(g), global_balance: D::g(g) }
    }
}
impl D for BurningConfig {
    fn d(&self, x: &mut X<'_>) {
        self.blackhole_addr.d(x);
        self.fee_burn_num.d(x);
        self.fee_burn_denom.d(x);
    }
    fn g(g: &mut G) -> Self {
        let a: NonZeroU32 = D::g(g);
        let b: u32 = D::g(g);
        BurningConfig { blackhole_addr: D::g(g), fee_burn_num: b.min(a.get()), fee_burn_denom: a }
    }
}
impl D for WorkchainFormatExtended {
    fn d(&self, x: &mut X<'_>) {
        self.min_addr_len.d(x);
        self.max_addr_len.d(x);
        self.addr_len_step.d(x);
        self.workchain_type_id.d(x);
    }
    fn g(g: &mut G) -> Self {
        let a = g.r.range(64, 1023);
        let b = g.r.range(a, 1023);
        WorkchainFormatExtended { min_addr_len: Uint12::new(a as u16), max_addr_len: Uint12::new(b as u16), addr_len_step: Uint12::new(g.r.below(1024) as u16), workchain_type_id: D::g(g) }
    }
}
impl D for WorkchainDescription {
    fn d(&self, x: &mut X<'_>) {
        self.enabled_since.d(x);
        self.actual_min_split.d(x);
        self.min_split.d(x);
        self.max_split.d(x);
        self.format.is_basic().d(x);
        self.active.d(x);
        self.accept_msgs.d(x);
        self.zerostate_root_hash.d(x);
        self.zerostate_file_hash.d(x);
        self.version.d(x);
        self.format.d(x);
    }
    fn g(g: &mut G) -> Self {
        let b = g.r.range(0, 60);
        let a = g.r.range(0, b);
        WorkchainDescription { enabled_since: D::g(g), actual_min_split: D::g(g), min_split: a as u8, max_split: b as u8, active: D::g(g), accept_msgs: D::g(g), zerostate_root_hash: D::g(g), zerostate_file_hash: D::g(g), version: D::g(g), format: D::g(g) }
    }
}
impl D for BlockParamLimits {
    fn d(&self, x: &mut X<'_>) {
        self.underload.d(x);
        self.soft_limit.d(x);
        self.hard_limit.d(x);
    }
    fn g(g: &mut G) -> Self {
        let mut v: [u32; 3] = [D::g(g), D::g(g), D::g(g)];
        v.sort();
        BlockParamLimits { underload: v[0], soft_limit: v[1], hard_limit: v[2] }
    }
}
impl D for ValidatorDescription {
    fn d(&self, x: &mut X<'_>) {
        self.public_key.d(x);
        self.weight.d(x);
        self.adnl_addr.d(x);
        self.mc_seqno_since.d(x);
        if self.prev_total_weight != 0 {
            x.s(format!("previous weight {}", self.prev_total_weight));
        }
    }
    fn g(g: &mut G) -> Self {
        let adnl_addr: Option<HashBytes> = D::g(g);
        let mc_seqno_since = if adnl_addr.is_some() { D::g(g) } else { 0 };
        ValidatorDescription { public_key: D::g(g), weight: D::g(g), adnl_addr, mc_seqno_since, prev_total_weight: 0 }
    }
}
impl D for ValidatorSet {
    fn d(&self, x: &mut X<'_>) {
        self.utime_since.d(x);
        self.utime_until.d(x);
        x.n(self.list.len() as u128, 16);
        x.n(self.main.get() as u128, 16);
        self.total_weight.d(x);
        let mut total = 0u64;
        for v in &self.list {
            if v.prev_total_weight != total {
                x.s("wrong previous weight");
            }
            ValidatorDescription { prev_total_weight: 0, ..v.clone() }.d(x);
            total = total.wrapping_add(v.weight);
        }
    }
    fn g(g: &mut G) -> Self {
        let n = g.r.range(1, 6);
        let mut list = Vec::new();
        let mut total_weight = 0u64;
        for _ in 0..n {
            let mut v = ValidatorDescription::g(g);
            v.weight >>= 3;
            v.prev_total_weight = total_weight;
            total_weight += v.weight;
            list.push(v);
        }
        ValidatorSet { utime_since: D::g(g), utime_until: D::g(g), main: NonZeroU16::new(g.r.range(1, n) as u16).unwrap(), total_weight, list }
    }
}
impl D for OutAction {
    fn d(&self, x: &mut X<'_>) {
        match self {
            OutAction::SendMsg { mode, out_msg } => {
                x.s("=SendMsg");
                mode.d(x);
                out_msg.d(x);
            }
            OutAction::SetCode { new_code } => {
                x.s("=SetCode");
                new_code.d(x);
            }
            OutAction::ReserveCurrency { mode, value } => {
                x.s("=Reserve");
                mode.d(x);
                value.d(x);
            }
            OutAction::ChangeLibrary { mode, lib } => {
                x.s("=ChangeLibrary");
                x.n(mode.bits() as u128, 7);
                lib.d(x);
            }
        }
    }
    fn g(g: &mut G) -> Self {
        match g.arm(4) {
            0 => OutAction::SendMsg { mode: D::g(g), out_msg: D::g(g) },
            1 => OutAction::SetCode { new_code: D::g(g) },
            2 => OutAction::ReserveCurrency { mode: D::g(g), value: D::g(g) },
            _ => OutAction::ChangeLibrary { mode: ChangeLibraryMode::from_bits_retain(g.r.below(128) as u8), lib: D::g(g) },
        }
    }
}
/// The attributes of the derived codecs that few model types use.
#[derive(Debug, Clone, PartialEq, Store, Load)]
#[tlb(tag = ["#00", "#01", "#a2"])]
pub struct Versioned {
    a: u16,
    b: Option<u8>,
    #[tlb(since_tag = 1)]
    c: u32,
    d: bool,
    #[tlb(since_tag = 2)]
    e: Dict<u16, u8>,
}
#[derive(Debug, Clone, PartialEq, Store, Load)]
#[tlb(tag = "$101")]
pub struct Tagged {
    a: u8,
    b: (bool, u32),
    c: (),
}

/// What the code did with a value or a cell.
fn enc<T: D + Store>(m: &mut M, seed: u64) -> Json {
    let mut g = G::new(Rng::new(seed));
    g.small = g.r.flip();
    let v = T::g(&mut g);
    let mut x = X { out: Vec::new(), it: &mut m.it };
    v.d(&mut x);
    let parts = x.out;
    match CellBuilder::build_from(&v) {
        Ok(c) => json!(["ok", parts, m.it.add(&c)]),
        Err(_) => json!(["err", parts]),
    }
}
fn dec<T: D + Store + for<'a> Load<'a>>(m: &mut M, c: &Cell) -> Json {
    let mut s = match c.as_slice() {
        Ok(s) => s,
        Err(e) => return err(&e),
    };
    let v = match T::load_from(&mut s) {
        Ok(v) => v,
        Err(e) => return err(&e),
    };
    let left = (s.size_bits(), s.size_refs());
    let mut x = X { out: Vec::new(), it: &mut m.it };
    v.d(&mut x);
    let parts = x.out;
    let again = match CellBuilder::build_from(&v) {
        Ok(c) => json!(m.it.add(&c)),
        Err(_) => json!(0),
    };
    json!(["ok", parts, left.0, left.1, again])
}
type Enc = fn(&mut M, u64) -> Json;
type Dec = fn(&mut M, &Cell) -> Json;
macro_rules! types {
    ($($t:ident)*) => { const TYPES: &[(&str, Enc, Dec)] = &[$((stringify!($t), enc::<$t>, dec::<$t>)),*]; }
}
types! {
    StorageUsed StorageUsedShort StorageExtra StorageInfo AccountStatus ShardAccount OptionalAccount Account AccountState StateInit SpecialFlags SimpleLib
    Transaction TxInfo OrdinaryTxInfo TickTockTxInfo TickTock HashUpdate StoragePhase CreditPhase ComputePhase SkippedComputePhase ComputePhaseSkipReason ActionPhase BouncePhase NoFundsBouncePhase ExecutedBouncePhase AccountStatusChange
    IntermediateAddr IntermediateAddrRegular IntermediateAddrSimple IntermediateAddrExt MsgEnvelope ImportFees InMsg InMsgExternal InMsgFinal InMsgTransit EnqueuedMsg
    OutMsg OutMsgExternal OutMsgNew OutMsgImmediate OutMsgDequeueImmediate OutMsgDequeueShort MsgInfo RelaxedMsgInfo
    CurrencyCollection ExtraCurrencyCollection GlobalVersion
    BlockExtra AccountBlock McBlockExtra ShardIdentFull ShardFeeCreated BlockSignature Signature BlockId ShardIdent BlockProof BlockSignatures Block BlockInfo BlockRef ValueFlow ShardHashes ShardDescription FutureSplitMerge
    ShardState ShardStateUnsplit ShardStateSplit LibDescr DepthBalanceInfo McStateExtra ValidatorInfo ValidatorBaseInfo ConsensusInfo GenesisInfo KeyBlockRef KeyMaxLt CreatorStats BlockCounters
    BlockchainConfig BurningConfig MintOnceConfig ConfigVotingSetup ConfigProposalSetup WorkchainDescription WorkchainFormat WorkchainFormatBasic WorkchainFormatExtended BlockCreationRewards ElectionTimings ValidatorCountParams ValidatorStakeParams StoragePrices GasLimitsPrices BlockParamLimits BlockLimits MsgForwardPrices CatchainConfig ConsensusConfig ValidatorSet ValidatorDescription SizeLimitsConfig
    OutAction Versioned Tagged
    AccountBlocks InMsgDescr OutMsgDescr ShardFees ShardAccounts
}

#[derive(Default)]
pub struct M {
    it: Interner,
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        let Some(t) = TYPES.iter().find(|t| t.0 == js(&op["t"])) else { return json!(["tool", "unknown type"]) };
        match js(&op["op"]) {
            "enc" => t.1(self, js(&op["seed"]).parse().unwrap()),
            "dec" => {
                let c = self.it.get(ju(&op["cell"]));
                t.2(self, &c)
            }
            x => json!(["tool", x]),
        }
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
fn go(m: &mut M, ev: &mut Vec<Json>, mut op: Json) -> Json {
    let r = m.run(&op);
    op["r"] = r.clone();
    ev.push(op);
    r
}

/// A cell with something wrong with it.
pub fn damage(r: &mut Rng, c: &Cell, depth: usize) -> Cell {
    let mut bits = cell_bits(c.as_ref());
    let mut refs: Vec<Cell> = (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect();
    let mut exo = c.is_exotic();
    let flip = |bits: &mut String, i: usize| {
        let b = if &bits[i..i + 1] == "0" { "1" } else { "0" };
        bits.replace_range(i..i + 1, b);
    };
    let k = r.below(if depth > 0 && !refs.is_empty() && !exo { 13 } else { 9 });
    match k {
        0 if !bits.is_empty() => {
            let n = if r.flip() { 1 } else { 1 + r.below(bits.len()) };
            bits.truncate(bits.len() - n);
        }
        1 if !bits.is_empty() => flip(&mut bits, r.below(usize::min(16, c.bit_len() as usize))),
        2 | 3 if !bits.is_empty() => flip(&mut bits, r.below(c.bit_len() as usize)),
        4 => bits.push_str(&r.bits(r.clone().below(9))),
        5 if !refs.is_empty() => {
            refs.remove(r.below(refs.len()));
        }
        6 if refs.len() < 4 => refs.push(Cell::default()),
        7 if !refs.is_empty() => {
            let i = r.below(refs.len());
            refs[i] = exotic(r);
        }
        8 if !bits.is_empty() => {
            // A field full of ones or zeros.
            let i = r.below(bits.len());
            let n = 1 + r.below(usize::min(bits.len() - i, 40));
            let v = if r.flip() { "1" } else { "0" }.repeat(n);
            bits.replace_range(i..i + n, &v);
        }
        9.. => {
            let i = r.below(refs.len());
            refs[i] = damage(r, &refs[i], depth - 1);
        }
        _ => return exotic(r),
    }
    if exo && k < 9 {
        exo = false;
    }
    bits.truncate(1023);
    let mut b = CellBuilder::new();
    store_bits(&mut b, &bits).unwrap();
    for x in refs {
        b.store_reference(x).unwrap();
    }
    b.set_exotic(exo);
    b.build().unwrap()
}

/// The cells of the blocks, states, configurations and messages of real networks that the repository keeps.
fn real() -> &'static [Vec<Cell>] {
    // A cell may belong to its thread.
    thread_local! { static REAL: &'static [Vec<Cell>] = Box::leak(load_real().into_boxed_slice()); }
    REAL.with(|r| *r)
}
fn load_real() -> Vec<Vec<Cell>> {
    let mut out = Vec::new();
    for dir in ["block", "config", "message", "shard", "transaction"] {
        let Ok(files) = std::fs::read_dir(format!("/repo/src/models/{dir}/tests")) else { continue };
        let mut files: Vec<_> = files.filter_map(|f| Some(f.ok()?.path())).filter(|p| p.extension().is_some_and(|e| e == "boc")).collect();
        files.sort();
        for f in files {
            let Ok(root) = Boc::decode(std::fs::read(f).unwrap()) else { continue };
            let (mut all, mut todo, mut seen) = (Vec::new(), vec![root], ahash::HashSet::default());
            while let Some(c) = todo.pop() {
                if seen.insert(*c.repr_hash()) {
                    todo.extend((0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()));
                    all.push(c);
                }
            }
            out.push(all);
        }
    }
    out
}
/// Every type reads what it can of a few cells; of the rest only some are kept.
fn record_real(seed: u64, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    for _ in 0..len {
        let file = r.pick(real());
        let c = r.pick(file).clone();
        if tree_size(&c, 60) >= 60 {
            continue;
        }
        for t in TYPES {
            let ok = !c.is_exotic() && t.2(&mut M::default(), &c)[0] == "ok";
            if if ok { r.chance(1, 2) || c.bit_len() > 200 } else { r.chance(1, 20) } {
                let id = m.it.add(&c);
                go(&mut m, &mut ev, json!({"op": "dec", "t": t.0, "cell": id}));
            }
        }
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
fn tree_size(c: &Cell, max: usize) -> usize {
    let (mut n, mut todo) = (0, vec![c.clone()]);
    while let Some(c) = todo.pop() {
        n += 1;
        if n >= max {
            break;
        }
        todo.extend((0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()));
    }
    n
}

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    if sel == "real" {
        return record_real(seed, len);
    }
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    for _ in 0..len {
        let t = if sel.starts_with(char::is_uppercase) { sel } else { r.pick(TYPES).0 };
        let e = go(&mut m, &mut ev, json!({"op": "enc", "t": t, "seed": r.next().to_string()}));
        if e[0] != "ok" {
            continue;
        }
        let id = ju(&e[2]);
        go(&mut m, &mut ev, json!({"op": "dec", "t": t, "cell": id}));
        let c = m.it.get(id);
        for _ in 0..2 {
            let mut c = damage(&mut r, &c, 2);
            if r.chance(1, 4) {
                c = damage(&mut r, &c, 2);
            }
            let id = m.it.add(&c);
            go(&mut m, &mut ev, json!({"op": "dec", "t": t, "cell": id}));
        }
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
