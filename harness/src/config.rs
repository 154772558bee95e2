//! The parameters of a blockchain: a map from numbers to cells, with typed views of some of them.
use tycho_types::cell::Store;
use tycho_types::models::*;
use tycho_types::models::config::*;
use tycho_types::num::Tokens;
use tycho_types::prelude::*;

use crate::tlb::{D, G, X, damage};
use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
    c: Option<BlockchainConfig>,
}
fn parts<T: D>(m: &mut M, v: &T) -> Vec<String> {
    let mut x = X { out: Vec::new(), it: &mut m.it };
    v.d(&mut x);
    x.out
}
fn id_of(op: &Json) -> u32 {
    u32::from_str_radix(js(&op["id"]), 2).unwrap()
}
fn said<T: D>(m: &mut M, r: Result<T, tycho_types::error::Error>) -> Json {
    match r {
        Ok(v) => json!(["ok", parts(m, &v)]),
        Err(e) => err(&e),
    }
}
fn maybe<T: D>(m: &mut M, r: Result<Option<T>, tycho_types::error::Error>) -> Json {
    match r {
        Ok(Some(v)) => json!(["ok", parts(m, &v)]),
        Ok(None) => json!(["none"]),
        Err(e) => err(&e),
    }
}
fn entries(m: &mut M, c: &BlockchainConfigParams) -> Json {
    let mut out = Vec::new();
    for e in c.as_dict().iter() {
        match e {
            Ok((k, v)) => out.push(json!([format!("{k:032b}"), m.it.add(&v)])),
            Err(e) => return err(&e),
        }
    }
    json!(out)
}
fn root(m: &mut M, c: &BlockchainConfigParams) -> usize {
    c.as_dict().root().as_ref().map_or(0, |r| m.it.add(r))
}
/// A typed parameter, by number.
macro_rules! params {
    ($($id:literal $p:ident $t:ty),* $(,)?) => {
        fn get_param(m: &mut M, c: &BlockchainConfig, id: u32) -> Json {
            match id {
                $($id => {
                    let v = c.get::<$p>();
                    if matches!(v, Ok(_)) && c.contains::<$p>().unwrap() != v.as_ref().is_ok_and(|v| v.is_some()) {
                        return json!(["differs", "contains"]);
                    }
                    maybe(m, v)
                })*
                _ => json!(["tool", "param"]),
            }
        }
        fn set_param(m: &mut M, c: &mut BlockchainConfig, id: u32, g: &mut G) -> Json {
            match id {
                $($id => {
                    let v: $t = D::g(g);
                    let p = parts(m, &v);
                    let r = c.set::<$p>(&v);
                    put(m, c, json!(p), r)
                })*
                _ => json!(["tool", "param"]),
            }
        }
        const TYPED: &[u32] = &[$($id),*];
    };
}
params! {
    0 ConfigParam0 HashBytes, 1 ConfigParam1 HashBytes, 2 ConfigParam2 HashBytes, 3 ConfigParam3 HashBytes, 4 ConfigParam4 HashBytes,
    5 ConfigParam5 BurningConfig, 7 ConfigParam7 ExtraCurrencyCollection, 8 ConfigParam8 GlobalVersion, 11 ConfigParam11 ConfigVotingSetup,
    14 ConfigParam14 BlockCreationRewards, 15 ConfigParam15 ElectionTimings, 16 ConfigParam16 ValidatorCountParams, 17 ConfigParam17 ValidatorStakeParams,
    20 ConfigParam20 GasLimitsPrices, 21 ConfigParam21 GasLimitsPrices, 22 ConfigParam22 BlockLimits, 23 ConfigParam23 BlockLimits,
    24 ConfigParam24 MsgForwardPrices, 25 ConfigParam25 MsgForwardPrices, 28 ConfigParam28 CatchainConfig, 29 ConfigParam29 ConsensusConfig,
    32 ConfigParam32 ValidatorSet, 33 ConfigParam33 ValidatorSet, 34 ConfigParam34 ValidatorSet, 35 ConfigParam35 ValidatorSet, 36 ConfigParam36 ValidatorSet, 37 ConfigParam37 ValidatorSet,
    43 ConfigParam43 SizeLimitsConfig, 50 ConfigParam50 MintOnceConfig,
}
fn put(m: &mut M, c: &BlockchainConfig, v: Json, r: Result<bool, tycho_types::error::Error>) -> Json {
    match r {
        Ok(flag) => json!(["ok", v, flag, root(m, c)]),
        Err(_) => json!(["unfit", v]),
    }
}
fn get(m: &mut M, c: &BlockchainConfig, op: &Json) -> Json {
    let mc = jb(&op["mc"]);
    match js(&op["what"]) {
        "param" => get_param(m, c, id_of(op)),
        "elector" => said(m, c.get_elector_address()),
        "minter" => said(m, c.get_minter_address()),
        "collector" => said(m, c.get_fee_collector_address()),
        "burning" => said(m, c.get_burning_config()),
        "version" => said(m, c.get_global_version()),
        "mandatory" => said(m, c.get_mandatory_params()),
        "critical" => said(m, c.get_critical_params()),
        "workchains" => said(m, c.get_workchains()),
        "reward" => said(m, c.get_block_creation_reward(mc)),
        "rewards" => said(m, c.get_block_creation_rewards()),
        "timings" => said(m, c.get_election_timings()),
        "counts" => said(m, c.get_validator_count_params()),
        "stakes" => said(m, c.get_validator_stake_params()),
        "prices" => said(m, c.get_storage_prices()),
        "global_id" => said(m, c.get_global_id().map(|v| v as u32)),
        "gas" => said(m, c.get_gas_prices(mc)),
        "limits" => said(m, c.get_block_limits(mc)),
        "forward" => said(m, c.get_msg_forward_prices(mc)),
        "catchain" => said(m, c.get_catchain_config()),
        "consensus" => said(m, c.get_consensus_config()),
        "fundamental" => said(m, c.get_fundamental_addresses()),
        "prev" => maybe(m, c.get_previous_validator_set()),
        "current" => said(m, c.get_current_validator_set()),
        "next" => maybe(m, c.get_next_validator_set()),
        "sizes" => said(m, c.get_size_limits()),
        x => json!(["tool", x]),
    }
}
fn set(m: &mut M, c: &mut BlockchainConfig, op: &Json) -> Json {
    let mut g = G::new(Rng::new(js(&op["seed"]).parse().unwrap()));
    g.valid = true;
    g.small = true;
    let g = &mut g;
    let mc = jb(&op["mc"]);
    macro_rules! with {
        ($t:ty, $f:ident $($mc:ident)?) => {{
            let v: $t = D::g(g);
            let p = parts(m, &v);
            let r = c.$f($($mc,)? &v);
            put(m, c, json!(p), r)
        }};
    }
    match js(&op["what"]) {
        "param" => set_param(m, c, id_of(op), g),
        "elector" => with!(HashBytes, set_elector_address),
        "minter" => with!(HashBytes, set_minter_address),
        "collector" => with!(HashBytes, set_fee_collector_address),
        "burning" => with!(BurningConfig, set_burning_config),
        "version" => with!(GlobalVersion, set_global_version),
        "rewards" => with!(BlockCreationRewards, set_block_creation_rewards),
        "timings" => with!(ElectionTimings, set_election_timings),
        "counts" => with!(ValidatorCountParams, set_validator_count_params),
        "stakes" => with!(ValidatorStakeParams, set_validator_stake_params),
        "gas" => with!(GasLimitsPrices, set_gas_prices mc),
        "limits" => with!(BlockLimits, set_block_limits mc),
        "forward" => with!(MsgForwardPrices, set_msg_forward_prices mc),
        "catchain" => with!(CatchainConfig, set_catchain_config),
        "consensus" => with!(ConsensusConfig, set_consensus_config),
        "sizes" => with!(SizeLimitsConfig, set_size_limits),
        "global_id" => {
            let v: u32 = D::g(g);
            let r = c.set_global_id(v as i32);
            {
                let p = parts(m, &v);
                put(m, c, json!(p), r)
            }
        }
        w @ ("mandatory" | "critical") => {
            let n = g.r.below(5);
            let keys: Vec<u32> = (0..n).map(|_| if g.r.flip() { g.r.below(8) as u32 } else { D::g(g) }).collect();
            let r = if w == "mandatory" { c.set_mandatory_params(&keys) } else { c.set_critical_params(&keys) };
            put(m, c, json!(keys.iter().map(|k| [format!("{k:032b}")]).collect::<Vec<_>>()), r)
        }
        "fundamental" => {
            let n = g.r.below(5);
            let mut keys: Vec<HashBytes> = (0..n).map(|_| D::g(g)).collect();
            if n > 2 {
                keys[1] = keys[0];
            }
            let r = c.set_fundamental_addresses(&keys);
            let v: Vec<Vec<String>> = keys.iter().map(|k| parts(m, k)).collect();
            put(m, c, json!(v), r)
        }
        "prices" => {
            let n = g.r.below(4);
            let all: Vec<StoragePrices> = (0..n).map(|_| D::g(g)).collect();
            let v: Vec<Json> = all.iter().enumerate().map(|(k, p)| json!([format!("{k:032b}"), parts(m, p)])).collect();
            let r = c.set_storage_prices(&all);
            put(m, c, json!(v), r)
        }
        "workchains" => {
            let n = g.r.below(4);
            let mut d = Dict::<i32, WorkchainDescription>::new();
            let mut v = Vec::new();
            for k in 0..n {
                let key = (k as i32 - 1) * 77;
                let w: WorkchainDescription = D::g(g);
                if d.set(key, &w).is_ok() {
                    v.push(json!([format!("{key:032b}"), parts(m, &w)]));
                }
            }
            let r = c.set_workchains(&d);
            put(m, c, json!(v), r)
        }
        x => json!(["tool", x]),
    }
}
fn backs(m: &mut M, c: &BlockchainConfig) -> Json {
    let text = match serde_json::to_string(c) {
        Ok(t) => t,
        Err(e) => return json!(["unwritten", e.to_string()]),
    };
    let mut out = Vec::new();
    for how in 0..3 {
        let r = match how {
            0 => serde_json::from_str::<BlockchainConfig>(&text),
            1 => serde_json::to_value(c).and_then(serde_json::from_value::<BlockchainConfig>),
            _ => serde_json::to_string_pretty(&c.params).and_then(|t| serde_json::from_str::<BlockchainConfigParams>(&t)).map(|params| BlockchainConfig { address: c.address, params }),
        };
        match r {
            Ok(v) => out.push(json!([parts(m, &v.address)[0], entries(m, &v.params)])),
            Err(e) => return json!(["unread", e.to_string(), text]),
        }
    }
    json!(["ok", out])
}
fn binary(m: &mut M, c: &BlockchainConfig) -> Json {
    match bincode::serialize(c).map(|b| bincode::deserialize::<BlockchainConfig>(&b)) {
        Ok(Ok(v)) => json!([parts(m, &v.address)[0], root(m, &v.params)]),
        Ok(Err(e)) => json!(["unread", e.to_string()]),
        Err(e) => json!(["unwritten", e.to_string()]),
    }
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        if js(&op["op"]) == "new" {
            let c = BlockchainConfig::new_empty(HashBytes::from_slice(&bits_to_bytes(js(&op["addr"]))));
            let r = root(self, &c);
            self.c = Some(c);
            return json!(["ok", r]);
        }
        let Some(mut c) = self.c.take() else { return json!(["tool", "no config"]) };
        let r = match js(&op["op"]) {
            "set" => {
                let v = self.it.get(ju(&op["cell"]));
                match c.set_raw(id_of(op), v) {
                    Ok(f) => json!(["ok", f, root(self, &c)]),
                    Err(e) => err(&e),
                }
            }
            "remove" => match c.remove(id_of(op)) {
                Ok(v) => {
                    let v = v.map_or(0, |v| self.it.add(&v));
                    json!(["ok", v, root(self, &c)])
                }
                Err(e) => err(&e),
            },
            "raw" => {
                let id = id_of(op);
                match (c.contains_raw(id), c.get_raw_cell(id), c.get_raw_cell_ref(id).map(|c| c.map(|c| *c.repr_hash())), c.get_raw(id)) {
                    (Ok(has), Ok(v), Ok(h), s) => {
                        if has != v.is_some() || h != v.as_ref().map(|v| *v.repr_hash()) {
                            json!(["differs", "raw"])
                        } else if !match (&v, s) {
                            (None, Ok(None)) => true,
                            (Some(v), Ok(Some(s))) => v.as_slice().is_ok_and(|w| w.contents_eq(&s).unwrap_or(false)),
                            (Some(v), Err(_)) => v.is_exotic(),
                            _ => false,
                        } {
                            json!(["differs", "slice"])
                        } else {
                            json!(["ok", v.map_or(0, |v| self.it.add(&v))])
                        }
                    }
                    _ => json!(["err", "raw"]),
                }
            }
            "has" => match (c.contains_prev_validator_set(), c.contains_next_validator_set()) {
                (Ok(a), Ok(b)) => json!(["ok", a, b]),
                _ => json!(["err", "has"]),
            },
            "all" => json!(["ok", entries(self, &c)]),
            "get" => get(self, &c, op),
            "put" => set(self, &mut c, op),
            "save" => match CellBuilder::build_from(&c) {
                Ok(x) => match x.parse::<BlockchainConfig>() {
                    Ok(v) => {
                        let same = v == c;
                        c = v;
                        json!(["ok", self.it.add(&x), same])
                    }
                    Err(e) => err(&e),
                },
                Err(e) => err(&e),
            },
            "json" => {
                let b = binary(self, &c);
                json!(["ok", backs(self, &c), b])
            }
            x => json!(["tool", x]),
        };
        self.c = Some(c);
        r
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
const GETS: &[&str] = &[
    "elector", "minter", "collector", "burning", "version", "mandatory", "critical", "workchains", "reward", "rewards", "timings", "counts", "stakes", "prices", "global_id", "gas", "limits", "forward",
    "catchain", "consensus", "fundamental", "prev", "current", "next", "sizes", "param",
];
const NO_SET: &[&str] = &["reward", "prev", "current", "next"];
pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    fn go(m: &mut M, ev: &mut Vec<Json>, mut op: Json) -> Json {
        let res = m.run(&op);
        op["r"] = res.clone();
        ev.push(op);
        res
    }
    go(&mut m, &mut ev, json!({"op": "new", "addr": r.mixed_bits(256)}));
    // A few parameters get most of the attention.
    let some: Vec<&str> = (0..4).map(|_| *r.pick(GETS)).collect();
    let sets = *r.pick(&[32u32, 34, 36, 0]);
    let mut raw: Vec<usize> = Vec::new();
    let mut typed = vec![0, 1, 2, 3];
    for _ in 0..len {
        let what = if r.chance(2, 3) { *r.pick(&some) } else { *r.pick(GETS) };
        let id = match r.below(6) {
            0 if sets > 0 => sets + r.below(2) as u32,
            1 => r.below(4) as u32,
            2 => *r.pick(&[0u32, u32::MAX, 0x8000_0000, 26, 6, 13, 30, 1 << 20]),
            3 if !typed.is_empty() => *r.pick(&typed),
            4 => r.next() as u32,
            _ => *r.pick(TYPED),
        };
        let bits = format!("{id:032b}");
        let mc = r.flip();
        match r.below(16) {
            0 => {
                // Something at a place of its own, or where something typed should be.
                let c = match m.c.as_ref().and_then(|c| c.get_raw_cell(id).ok().flatten()) {
                    Some(c) if r.flip() => damage(&mut r, &c, 1),
                    _ => rand_cell(&mut r, 1, 80),
                };
                raw.push(m.it.add(&c));
                let cell = *r.pick(&raw);
                go(&mut m, &mut ev, json!({"op": "set", "id": bits, "cell": cell}));
            }
            1 => {
                go(&mut m, &mut ev, json!({"op": "remove", "id": bits}));
            }
            2 => {
                go(&mut m, &mut ev, json!({"op": "raw", "id": bits}));
            }
            3 => {
                go(&mut m, &mut ev, json!({"op": "has"}));
                let what = *r.pick(&["prev", "current", "next", "minter", "collector"]);
                go(&mut m, &mut ev, json!({"op": "get", "what": what, "mc": mc, "id": bits}));
            }
            4 => {
                go(&mut m, &mut ev, json!({"op": "save"}));
            }
            5 => {
                go(&mut m, &mut ev, json!({"op": "json"}));
            }
            6..=9 => {
                let id = if TYPED.contains(&id) { id } else { *r.pick(TYPED) };
                go(&mut m, &mut ev, json!({"op": "get", "what": what, "mc": mc, "id": format!("{id:032b}")}));
            }
            10 => {
                go(&mut m, &mut ev, json!({"op": "all"}));
            }
            _ => {
                let what = if NO_SET.contains(&what) { "param" } else { what };
                let id = if TYPED.contains(&id) { id } else { *r.pick(TYPED) };
                if what == "param" {
                    typed.push(id);
                }
                go(&mut m, &mut ev, json!({"op": "put", "what": what, "mc": mc, "id": format!("{id:032b}"), "seed": r.next().to_string()}));
                if r.flip() {
                    go(&mut m, &mut ev, json!({"op": "get", "what": what, "mc": r.flip(), "id": format!("{id:032b}")}));
                }
            }
        }
    }
    go(&mut m, &mut ev, json!({"op": "json"}));
    go(&mut m, &mut ev, json!({"op": "all"}));
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
