//! Validator subsets, the random numbers behind them, and lists of output actions.
use tycho_types::models::*;
use tycho_types::models::config::ValidatorSetPRNG;
use tycho_types::prelude::*;

use crate::tlb::{D, G, X, damage};
use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
}
fn hash(v: &Json) -> HashBytes {
    HashBytes(unhex(js(v)).try_into().unwrap())
}
fn shard(v: &Json) -> ShardIdent {
    ShardIdent::new(bits_u64(js(&v["wc"])) as u32 as i32, bits_u64(js(&v["prefix"]))).unwrap()
}
/// Members are [key, weight, adnl or "", since].
fn set(op: &Json) -> ValidatorSet {
    let mut total = 0;
    let list = op["list"].as_array().unwrap().iter().map(|d| {
        let weight = bits_u64(js(&d[1]));
        let prev_total_weight = total;
        total += weight;
        ValidatorDescription {
            public_key: hash(&d[0]),
            weight,
            adnl_addr: if js(&d[2]).is_empty() { None } else { Some(hash(&d[2])) },
            mc_seqno_since: ju(&d[3]) as u32,
            prev_total_weight,
        }
    });
    let list = list.collect();
    let main = std::num::NonZeroU16::new(ju(&op["main"]) as u16).unwrap();
    let v = ValidatorSet { utime_since: 1, utime_until: 2, main, total_weight: total, list };
    match js(&op["via"]) {
        "cell" => CellBuilder::build_from(&v).unwrap().parse().unwrap(),
        "json" => serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap(),
        _ => v,
    }
}
fn subset(r: Option<(Vec<ValidatorDescription>, u32)>) -> Json {
    match r {
        None => json!(["none"]),
        Some((l, h)) => {
            if ValidatorSet::compute_subset_hash_short(&l, 0) == h {
                return json!(["differs", "the hash does not depend on the number"]);
            }
            let l: Vec<_> = l.iter().map(|d| json!([hex(&d.public_key.0), u128_bits(d.weight as u128, 64), d.adnl_addr.map_or(String::new(), |a| hex(&a.0)), d.mc_seqno_since])).collect();
            json!(["ok", l, u128_bits(h as u128, 32)])
        }
    }
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        let seqno = op["seqno"].as_str().map_or(0, |s| bits_u64(s) as u32);
        match js(&op["op"]) {
            "subset" => {
                let cfg = CatchainConfig {
                    isolate_mc_validators: jb(&op["isolate"]),
                    shuffle_mc_validators: jb(&op["shuffle"]),
                    mc_catchain_lifetime: 1,
                    shard_catchain_lifetime: 2,
                    shard_validators_lifetime: 3,
                    shard_validators_num: ju(&op["num"]) as u32,
                };
                subset(set(op).compute_subset(shard(&op["shard"]), &cfg, seqno))
            }
            "mcsubset" => subset(set(op).compute_mc_subset(seqno, jb(&op["shuffle"]))),
            "prng" => {
                let seed: [u8; 32] = unhex(js(&op["from"])).try_into().unwrap();
                let mut p = ValidatorSetPRNG::with_seed(shard(&op["shard"]), seqno, &seed);
                if seed == [0; 32] && jb(&op["plain"]) {
                    p = ValidatorSetPRNG::new(shard(&op["shard"]), seqno);
                }
                // "": the number itself
                let out = op["ranges"].as_array().unwrap().iter().map(|r| match js(r) {
                    "" => p.next_u64(),
                    r => p.next_ranged(bits_u64(r)),
                });
                json!(["ok", out.map(|v| u128_bits(v as u128, 64)).collect::<Vec<_>>()])
            }
            "emit" => {
                // A list as a contract leaves it: every action after the ones before it.
                let mut g = G::new(Rng::new(js(&op["seed"]).parse().unwrap()));
                g.small = g.r.flip();
                let mut said = Vec::new();
                let mut list = Cell::default();
                for _ in 0..ju(&op["n"]) {
                    let a = OutAction::g(&mut g);
                    let mut x = X { out: Vec::new(), it: &mut self.it };
                    a.d(&mut x);
                    let out = x.out;
                    let mut b = CellBuilder::new();
                    b.store_reference(list).unwrap();
                    if let Err(e) = tycho_types::cell::Store::store_into(&a, &mut b, Cell::empty_context()) {
                        return err(&e);
                    }
                    said.push(out);
                    list = b.build().unwrap();
                }
                json!(["ok", said, self.it.add(&list)])
            }
            "acts" => {
                let c = self.it.get(ju(&op["cell"]));
                let s = match c.as_slice() {
                    Ok(s) => s,
                    Err(e) => return err(&e),
                };
                let mut out = Vec::new();
                let mut end = "end";
                for a in OutActionsRevIter::new(s) {
                    match a {
                        Ok(a) => {
                            let mut x = X { out: Vec::new(), it: &mut self.it };
                            a.d(&mut x);
                            out.push(x.out);
                        }
                        Err(_) => {
                            end = "bad";
                            break;
                        }
                    }
                }
                json!(["ok", out, end])
            }
            x => json!(["tool", x]),
        }
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
fn rand_shard(r: &mut Rng) -> Json {
    let wc = if r.chance(1, 4) { -1 } else { [0, 1, -2, i32::MIN, 77][r.below(5)] };
    let n = if wc == -1 || r.chance(1, 3) { 0 } else { r.below(61) };
    json!({"wc": u128_bits(wc as u32 as u128, 32), "prefix": format!("{}1{}", r.bits(n), "0".repeat(63 - n))})
}
fn rand_set(r: &mut Rng, op: &mut Json) {
    let n = 1 + if r.chance(1, 6) { r.below(60) } else { r.below(12) };
    let kind = r.below(5);
    let list: Vec<_> = (0..n)
        .map(|j| {
            let w = match kind {
                0 => 1,
                1 => 1 + r.below(4) as u64,
                2 => bits_u64(&r.bits(58)) | 1,
                3 if j == 0 => u64::MAX - 1000,
                3 => 1 + r.below(10) as u64,
                _ => { let k = r.range(1, 50); bits_u64(&r.mixed_bits(k)) | 1 },
            };
            let adnl = if r.flip() { String::new() } else { hex(&r.hash()) };
            let since = if !adnl.is_empty() && r.flip() { r.below(1000) } else { 0 };
            json!([hex(&r.hash()), u128_bits(w as u128, 64), adnl, since])
        })
        .collect();
    op["main"] = json!(1 + r.below(n));
    op["list"] = json!(list);
    op["via"] = json!(*r.pick(&["cell", "json", "direct"]));
}
pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    let mut go = |m: &mut M, mut op: Json| {
        let res = m.run(&op);
        op["r"] = res.clone();
        ev.push(op);
        res
    };
    if sel == "acts" {
        for _ in 0..len {
            let n = if r.chance(1, 50) { 200 + r.below(200) } else { r.below(8) };
            let e = go(&mut m, json!({"op": "emit", "n": n, "seed": r.next().to_string()}));
            if e[0] != "ok" {
                continue;
            }
            let id = ju(&e[2]);
            go(&mut m, json!({"op": "acts", "cell": id}));
            if n < 10 {
                let c = m.it.get(id);
                let c = damage(&mut r, &c, 3);
                let id = m.it.add(&c);
                go(&mut m, json!({"op": "acts", "cell": id}));
            }
        }
    } else {
        for _ in 0..len {
            let seqno = if r.chance(1, 8) { 0xffff_ffffu32 - r.below(3) as u32 } else { 1 + r.below(100000) as u32 };
            let mut op = json!({"seqno": u128_bits(seqno as u128, 32)});
            match r.below(8) {
                0 => {
                    op["op"] = json!("prng");
                    op["plain"] = json!(r.flip());
                    let k = r.below(4) * 8;
                    op["from"] = json!(match r.below(3) {
                        0 => "00".repeat(32),
                        1 => format!("{}{}", hex(&r.bytes(32 - k)), "ff".repeat(k)),
                        _ => format!("{}fe", "ff".repeat(31)),
                    });
                    op["shard"] = rand_shard(&mut r);
                    let k = r.below(40);
                    op["ranges"] = json!((0..k).map(|_| if r.flip() { String::new() } else { let k = r.range(1, 64); u128_bits(bits_u128(&r.mixed_bits(k)), 64) }).collect::<Vec<_>>());
                }
                1 => {
                    op["op"] = json!("mcsubset");
                    op["shuffle"] = json!(r.chance(3, 4));
                    rand_set(&mut r, &mut op);
                }
                _ => {
                    op["op"] = json!("subset");
                    op["shuffle"] = json!(r.flip());
                    op["isolate"] = json!(r.chance(1, 3));
                    op["num"] = json!(if r.flip() { r.below(6) } else { r.below(70) });
                    op["shard"] = rand_shard(&mut r);
                    rand_set(&mut r, &mut op);
                }
            }
            go(&mut m, op);
        }
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
