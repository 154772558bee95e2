//! The textual form of values: what is written as JSON reads back as the same.
use tycho_types::cell::{CellSliceParts, Load, Store};
use tycho_types::merkle::{MerkleProof, MerkleUpdate};
use tycho_types::models::*;
use tycho_types::prelude::*;

use crate::tlb::{D, G, X, damage};
use crate::util::*;

fn parts<T: D>(m: &mut M, v: &T) -> Vec<String> {
    let mut x = X { out: Vec::new(), it: &mut m.it };
    v.d(&mut x);
    x.out
}
/// The value in the cell, and what is read from its JSON: as text, as a value, with spaces.
fn json1<T: D + Store + serde::Serialize + serde::de::DeserializeOwned + for<'a> Load<'a>>(m: &mut M, c: &Cell) -> Json {
    let v = match c.parse::<T>() {
        Ok(v) => v,
        Err(e) => return err(&e),
    };
    backs(m, &v, |m, v| json!(parts(m, v)))
}
/// What three ways of reading the textual form, and the binary form, give; as json1.
fn backs<T: serde::Serialize + serde::de::DeserializeOwned>(m: &mut M, v: &T, show: impl Fn(&mut M, &T) -> Json) -> Json {
    let had = show(m, v);
    let text = match serde_json::to_string(v) {
        Ok(t) => t,
        Err(e) => return json!(["unwritten", had, e.to_string()]),
    };
    let mut back = Vec::new();
    for how in 0..3 {
        let r = match how {
            0 => serde_json::from_str::<T>(&text),
            1 => serde_json::from_str::<Json>(&text).and_then(|j| serde_json::to_string_pretty(&j)).and_then(|t| serde_json::from_reader(t.as_bytes())),
            _ => serde_json::to_value(v).and_then(serde_json::from_value::<T>),
        };
        match r {
            Ok(v) => back.push(show(m, &v)),
            Err(e) => return json!(["unread", had, e.to_string(), text]),
        }
    }
    let bin = match bincode::serialize(v).map(|b| bincode::deserialize::<T>(&b)) {
        Ok(Ok(v)) => json!(["ok", show(m, &v)]),
        Ok(Err(e)) => json!(["unread", e.to_string()]),
        Err(e) => json!(["unwritten", e.to_string()]),
    };
    json!(["ok", had, back, bin])
}
fn message<I: D>(m: &mut M, c: &Cell) -> Json
where
    BaseMessage<I, CellSliceParts>: serde::Serialize + serde::de::DeserializeOwned + for<'a> Load<'a>,
{
    let v = match c.parse::<BaseMessage<I, CellSliceParts>>() {
        Ok(v) => v,
        Err(e) => return err(&e),
    };
    backs(m, &v, |m, v| {
        let mut x = X { out: Vec::new(), it: &mut m.it };
        v.info.d(&mut x);
        v.init.is_some().d(&mut x);
        if let Some(i) = &v.init {
            i.d(&mut x);
        }
        let parts = x.out;
        let s = v.body.0.apply_allow_exotic(&v.body.1);
        let refs: Vec<usize> = (0..s.size_refs()).map(|i| m.it.add(&s.get_reference_cloned(i).unwrap())).collect();
        let lay = v.layout.as_ref().map_or("-".to_owned(), |l| format!("{}{}", l.init_to_cell as u8, l.body_to_cell as u8));
        json!([parts, [s.cell().is_exotic() as u8, slice_bits(&s), refs], lay])
    })
}
fn hash_of(s: &str) -> HashBytes {
    HashBytes::from_slice(&bits_to_bytes(s))
}
fn proof(m: &mut M, op: &Json) -> Json {
    let v = MerkleProof { hash: hash_of(js(&op["h"][0])), depth: ju(&op["d"][0]) as u16, cell: m.it.get(ju(&op["cells"][0])) };
    backs(m, &v, |m, v| json!([[bytes_to_bits(v.hash.as_slice(), 256)], [v.depth], [m.it.add(&v.cell)]]))
}
fn update(m: &mut M, op: &Json) -> Json {
    let (h, d, c) = (&op["h"], &op["d"], &op["cells"]);
    let v = MerkleUpdate {
        old_hash: hash_of(js(&h[0])),
        new_hash: hash_of(js(&h[1])),
        old_depth: ju(&d[0]) as u16,
        new_depth: ju(&d[1]) as u16,
        old: m.it.get(ju(&c[0])),
        new: m.it.get(ju(&c[1])),
    };
    backs(m, &v, |m, v| {
        json!([[bytes_to_bits(v.old_hash.as_slice(), 256), bytes_to_bits(v.new_hash.as_slice(), 256)], [v.old_depth, v.new_depth], [m.it.add(&v.old), m.it.add(&v.new)]])
    })
}
/// The members of a set of capabilities, by name.
fn caps(op: &Json) -> Json {
    use std::str::FromStr;
    let set = GlobalCapabilities::new(u64::from_str_radix(js(&op["bits"]), 2).unwrap());
    let bits = |c: GlobalCapabilities| format!("{:064b}", c.into_inner());
    let mut it = set.iter();
    let mut names = Vec::new();
    let mut hints = vec![json!([it.size_hint().0, it.size_hint().1.unwrap_or(99)])];
    while let Some(c) = it.next() {
        names.push(c.to_string());
        hints.push(json!([it.size_hint().0, it.size_hint().1.unwrap_or(99)]));
    }
    let Ok(one) = GlobalCapability::from_str(js(&op["name"])) else { return json!(["err", "UnknownCapability"]) };
    let mut more = set;
    more |= one;
    if set | one != more || one | set != more || set.into_inner() | one != more {
        return json!(["differs", "or"]);
    }
    if set.into_iter().map(|c| c.to_string()).collect::<Vec<_>>() != names || GlobalCapabilities::from(set.into_inner()) != set || set.len() == 0 && !set.is_empty() {
        return json!(["differs", "ways"]);
    }
    json!(["ok", names, hints, set.len(), set.is_empty(), set.contains(one), bits(more), bits(set.iter().collect()), one.to_string(), bits([one].into())])
}
fn make<T: D + Store>(m: &mut M, seed: u64) -> Option<usize> {
    let mut g = G::new(Rng::new(seed));
    g.small = g.r.flip();
    g.valid = true;
    CellBuilder::build_from(&T::g(&mut g)).ok().map(|c| m.it.add(&c))
}
fn relaxed_message(g: &mut G) -> Result<Cell, tycho_types::error::Error> {
    g.small = true;
    let init: Option<StateInit> = g.r.chance(1, 3).then(|| D::g(g));
    let body = rand_cell(&mut g.r, 1, 60);
    let info = RelaxedMsgInfo::g(g);
    CellBuilder::build_from(OwnedRelaxedMessage { info, init, body: CellSliceParts::from(body), layout: None })
}
type Make = fn(&mut M, u64) -> Option<usize>;
type Go = fn(&mut M, &Cell) -> Json;
macro_rules! types {
    ($($t:ident)*) => { const TYPES: &[(&str, Make, Go)] = &[$((stringify!($t), make::<$t>, json1::<$t>)),*]; }
}
types! {
    StorageUsed StorageUsedShort StorageExtra StorageInfo AccountStatus ShardAccount OptionalAccount Account AccountState StateInit SpecialFlags SimpleLib
    Transaction TxInfo OrdinaryTxInfo TickTockTxInfo TickTock HashUpdate StoragePhase CreditPhase ComputePhase SkippedComputePhase ComputePhaseSkipReason ActionPhase BouncePhase NoFundsBouncePhase ExecutedBouncePhase AccountStatusChange
    ImportFees MsgInfo RelaxedMsgInfo CurrencyCollection ExtraCurrencyCollection GlobalVersion BlockId ShardIdent BlockInfo BlockRef ValueFlow GenesisInfo
    BurningConfig MintOnceConfig ConfigVotingSetup ConfigProposalSetup WorkchainDescription WorkchainFormat WorkchainFormatBasic WorkchainFormatExtended BlockCreationRewards ElectionTimings ValidatorCountParams ValidatorStakeParams StoragePrices GasLimitsPrices BlockParamLimits BlockLimits MsgForwardPrices CatchainConfig ConsensusConfig ValidatorSet ValidatorDescription SizeLimitsConfig
}

#[derive(Default)]
pub struct M {
    it: Interner,
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "caps" => return caps(op),
            "proof" => return proof(self, op),
            "update" => return update(self, op),
            "message" => {
                let c = self.it.get(ju(&op["cell"]));
                return if js(&op["t"]) == "MsgInfo" { message::<MsgInfo>(self, &c) } else { message::<RelaxedMsgInfo>(self, &c) };
            }
            _ => {}
        }
        let Some(t) = TYPES.iter().find(|t| t.0 == js(&op["t"])) else { return json!(["tool", "unknown type"]) };
        match js(&op["op"]) {
            "json" => {
                let c = self.it.get(ju(&op["cell"]));
                t.2(self, &c)
            }
            x => json!(["tool", x]),
        }
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    const SOME: [&str; 6] = ["CapIhrEnabled", "CapDelections", "CapFullBodyInBounced", "CapFastFinality", "CapBigCells", "CapReserved"];
    for k in 0..len {
        if k == 0 {
            let known = GlobalCapabilities::new((1 << 33) - 1).iter().collect::<Vec<_>>();
            let name = if r.chance(1, 4) { r.pick(&SOME).to_string() } else { r.pick(&known).to_string() };
            let bits = match r.below(4) {
                0 => format!("{:064b}", r.next() & 0x1_ffff_ffff),
                1 => format!("{:064b}", 1u64 << r.below(64)),
                _ => r.mixed_bits(64),
            };
            let mut op = json!({"op": "caps", "bits": bits, "name": name});
            op["r"] = m.run(&op);
            ev.push(op);
        }
        if k < 3 {
            let mut g = G::new(Rng::new(r.next()));
            g.valid = true;
            let relaxed = r.flip();
            let c = if relaxed { relaxed_message(&mut g) } else { crate::tlb::message(&mut g) };
            let Ok(c) = c else { continue };
            let mut ids = vec![(m.it.add(&c), true)];
            if r.flip() {
                ids.push((m.it.add(&damage(&mut r, &c, 1)), false));
            }
            for (id, whole) in ids {
                let mut op = json!({"op": "message", "t": if relaxed { "RelaxedMsgInfo" } else { "MsgInfo" }, "cell": id, "whole": whole});
                op["r"] = m.run(&op);
                ev.push(op);
            }
        }
        if k < 2 {
            let cs: Vec<usize> = (0..2).map(|_| rand_cell(&mut r, 2, 60)).map(|c| m.it.add(&c)).collect();
            let mut op = json!({"op": if k == 0 { "proof" } else { "update" }, "h": [r.mixed_bits(256), r.mixed_bits(256)], "d": [r.below(0x10000), r.below(0x10000)], "cells": cs});
            op["r"] = m.run(&op);
            ev.push(op);
        }
        let t = match TYPES.iter().find(|t| t.0 == sel) {
            Some(t) => t,
            None => r.pick(TYPES),
        };
        let Some(id) = t.1(&mut m, r.next()) else { continue };
        let c = m.it.get(id);
        let mut ids = vec![(id, true)];
        if r.chance(1, 3) {
            ids.push((m.it.add(&damage(&mut r, &c, 2)), false));
        }
        for (id, whole) in ids {
            let mut op = json!({"op": "json", "t": t.0, "cell": id, "whole": whole});
            op["r"] = m.run(&op);
            ev.push(op);
        }
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
