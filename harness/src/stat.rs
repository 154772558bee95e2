//! Counting distinct cells.
use tycho_types::cell::{CellTreeStats, StorageStat};
use tycho_types::models::{Account, AccountState, CurrencyCollection, IntAddr, StateInit, StdAddr, StorageInfo, StorageUsed};
use tycho_types::num::Tokens;
use tycho_types::prelude::*;

use crate::util::*;

#[derive(Default)]
pub struct M {
    cells: Vec<&'static Cell>,
    sizes: Vec<(usize, usize)>,
    stat: Option<StorageStat<'static>>,
    it: Interner,
}

fn limit(v: &Json) -> usize {
    v["lim"].as_i64().filter(|x| *x >= 0).map_or(usize::MAX, |x| x as usize)
}
fn small(x: u64) -> Json {
    if x < 2_000_000_000 { json!(x) } else { json!(-1) }
}
fn sums(tag: &str, s: CellTreeStats) -> Json {
    json!([tag, small(s.cell_count), small(s.bit_count)])
}
fn one(a: Option<CellTreeStats>, b: Option<CellTreeStats>) -> Json {
    match (a, b) {
        (Some(a), Some(b)) if a == b => sums("ok", a),
        (None, None) => json!(["over", 0, 0]),
        _ => json!(["differs", "method"]),
    }
}

impl M {
    fn c(&self, v: &Json) -> &'static Cell {
        self.cells[ju(v) - 1]
    }
    fn put(&mut self, c: Cell) -> Json {
        self.sizes.push((c.bit_len() as usize, c.reference_count() as usize));
        self.cells.push(Box::leak(Box::new(c)));
        json!(["ok"])
    }
    fn window(&self, op: &Json) -> CellSlice<'static> {
        let mut s = self.c(&op["c"]).as_slice_allow_exotic();
        let f = |k: &str| ju(&op[k]);
        s.skip_first(f("b0") as u16, f("r0") as u8).unwrap();
        s.only_first((f("b1") - f("b0")) as u16, (f("r1") - f("r0")) as u8).unwrap();
        s
    }
    fn stat(&mut self) -> &mut StorageStat<'static> {
        self.stat.get_or_insert_with(StorageStat::unlimited)
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "cell" => {
                let mut b = CellBuilder::new();
                store_bits(&mut b, js(&op["v"])).unwrap();
                for i in op["refs"].as_array().unwrap() {
                    b.store_reference(self.c(i).clone()).unwrap();
                }
                b.set_exotic(ju(&op["x"]) == 1);
                match b.build() {
                    Ok(c) => self.put(c),
                    Err(e) => err(&e),
                }
            }
            "chain" => {
                let at = self.sizes.len();
                let n = ju(&op["n"]);
                let mut c: Option<Cell> = op["refs"].get(0).map(|i| self.c(i).clone());
                for i in 0..n {
                    let mut b = CellBuilder::new();
                    store_bits(&mut b, js(&op["v"])).unwrap();
                    b.store_u16(n as u16).unwrap();
                    b.store_u16(i as u16).unwrap();
                    // the second reference is a side branch of every cell
                    let side = op["refs"].get(1).map(|i| self.c(i).clone());
                    let both = if jb(&op["first"]) { [c, side] } else { [side, c] };
                    for x in both.into_iter().flatten() {
                        b.store_reference(x).unwrap();
                    }
                    c = Some(b.build().unwrap());
                }
                let x = self.put(c.unwrap());
                self.sizes[at] = (usize::MAX, 0);
                x
            }
            "new" => {
                self.stat = Some(if op["lim"].as_i64() == Some(-1) { StorageStat::unlimited() } else { StorageStat::with_limit(limit(op)) });
                sums("ok", self.stat().stats())
            }
            "add" => {
                let c = self.c(&op["c"]);
                let ok = self.stat().add_cell(c.as_ref());
                sums(if ok { "ok" } else { "over" }, self.stat().stats())
            }
            "addslice" => {
                let s = self.window(op);
                let ok = self.stat().add_slice(&s);
                sums(if ok { "ok" } else { "over" }, self.stat().stats())
            }
            "of" => {
                let c = self.c(&op["c"]);
                let n = limit(op);
                one(c.compute_unique_stats(n), StorageStat::compute_for_cell(c.as_ref(), n))
            }
            "ofslice" => {
                let s = self.window(op);
                let n = limit(op);
                one(s.compute_unique_stats(n), StorageStat::compute_for_slice(&s, n))
            }
            "used" => {
                let n = ju(&op["tok"]);
                let tokens = if n == 0 { 0 } else { 1u128 << (8 * n - 1) };
                let roots: Vec<Cell> = op["roots"].as_array().unwrap().iter().map(|i| self.c(i).clone()).collect();
                let state = match js(&op["state"]) {
                    "uninit" => AccountState::Uninit,
                    "frozen" => AccountState::Frozen(HashBytes([0x5a; 32])),
                    _ => AccountState::Active(StateInit { code: roots.first().cloned(), data: roots.get(1).cloned(), ..Default::default() }),
                };
                let a = Account {
                    address: IntAddr::Std(StdAddr::new(0, HashBytes::ZERO)),
                    storage_stat: StorageInfo::default(),
                    last_trans_lt: 77,
                    balance: CurrencyCollection { tokens: Tokens::new(tokens), other: Default::default() },
                    state,
                };
                match StorageUsed::compute(&a, limit(op)) {
                    Ok(s) => json!(["ok", small(s.cells.into_inner()), small(s.bits.into_inner())]),
                    Err(e) => err(&e),
                }
            }
            x => json!(["tool", x]),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev: Vec<Json> = Vec::new();
    let mut total = 0;
    let deep = r.chance(1, 25);
    for _ in 0..len {
        let n = m.cells.len();
        let mut op = if n < 2 || (n < 40 && r.chance(1, 2)) {
            let k = if n == 0 { 0 } else { r.below(5) };
            let near = r.flip();
            let refs: Vec<usize> = (0..k).map(|_| if near { n - r.below(n.min(3)) } else { r.range(1, n) }).collect();
            match r.below(20) {
                0..=3 if ev.iter().any(|e| js(&e["op"]) == "cell") => {
                    // the same content once more, as a cell of its own
                    let made: Vec<&Json> = ev.iter().filter(|e| matches!(js(&e["op"]), "cell")).collect();
                    let mut x = (*made[r.below(made.len())]).clone();
                    x.as_object_mut().unwrap().remove("r");
                    x
                }
                4 => {
                    let k = r.below(3);
                    let mut v = format!("00000001{:08b}", [1u8, 3, 7][k]);
                    v += &r.bits(256 * (k + 1));
                    for _ in 0..=k {
                        v += "000000000000";
                        v += &r.bits(4);
                    }
                    json!({"op": "cell", "x": 1, "v": v, "refs": []})
                }
                5 | 6 => {
                    let k = if deep && r.chance(1, 3) { r.range(5000, 40000) } else { r.range(1, 60) };
                    let v = r.bits(64);
                    total += k;
                    json!({"op": "chain", "v": v, "n": k, "first": r.flip(), "refs": if total > 50000 { vec![] } else { refs[..refs.len().min(2)].to_vec() }})
                }
                _ => {
                    let len = *r.pick(&[0, 0, 1, 1, 2, 7, 8, 9, 500, 1022, 1023]);
                    json!({"op": "cell", "x": 0, "v": r.mixed_bits(len), "refs": refs})
                }
            }
        } else {
            let c = if r.flip() { n - r.below(n.min(5)) } else { r.range(1, n) };
            // limits around what is there
            let real = m.cells[c - 1].compute_unique_stats(usize::MAX).map_or(0, |x| x.cell_count as i64);
            let seen = m.stat().stats().cell_count as i64;
            let lim = match r.below(8) {
                0 => -1,
                1 => 0,
                2 => 1,
                3..=5 => (real + r.below(4) as i64 - 2).max(0),
                6 => (seen + r.below(8) as i64 - 2).max(0),
                _ => r.below(40) as i64,
            };
            let (b, k) = m.sizes[c - 1];
            let chain = b == usize::MAX; // windows are on single cells
            let b = if chain { 0 } else { b };
            let (b0, b1) = if r.flip() { (0, b) } else { let x = r.range(0, b); (x, r.range(x, b)) };
            let (r0, r1) = if r.flip() { (0, k) } else { let x = r.range(0, k); (x, r.range(x, k)) };
            match r.below(10) {
                0 => json!({"op": "new", "lim": lim}),
                1..=3 => json!({"op": "add", "c": c}),
                4 | 5 if !chain => json!({"op": "addslice", "c": c, "b0": b0, "b1": b1, "r0": r0, "r1": r1}),
                6 | 7 => json!({"op": "of", "c": c, "lim": lim}),
                8 if !chain => json!({"op": "ofslice", "c": c, "b0": b0, "b1": b1, "r0": r0, "r1": r1, "lim": lim}),
                _ => {
                    let st = *r.pick(&["uninit", "frozen", "active"]);
                    let roots = if st == "active" { [vec![], vec![c], vec![c, r.range(1, n)]][r.below(3)].clone() } else { vec![] };
                    json!({"op": "used", "tok": r.below(16), "state": st, "roots": roots, "lim": if lim < 0 { lim } else { lim + 1 }})
                }
            }
        };
        op["r"] = m.run(&op);
        ev.push(op);
    }
    Trace { cfg: json!({}), cells: vec![], ev }
}
