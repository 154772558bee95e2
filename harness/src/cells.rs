//! Cells of all types: how they are identified, at every level, virtualized or not.
use std::collections::HashMap;

use tycho_types::cell::LevelMask;
use tycho_types::merkle::make_pruned_branch;
use tycho_types::prelude::*;

use crate::util::*;

#[derive(Default)]
pub struct M {
    pub cells: Vec<Cell>,
    it: Interner,
}

fn levels<T, F: Fn(u8) -> T>(f: F) -> Vec<T> {
    (0..4).map(f).collect()
}
fn hs(c: &DynCell) -> Json {
    json!(levels(|l| hex(c.hash(l).as_slice())))
}
fn ds(c: &DynCell) -> Json {
    json!(levels(|l| c.depth(l)))
}
fn contiguous(m: LevelMask) -> bool {
    matches!(m.to_byte(), 0 | 1 | 3 | 7)
}
fn view(c: &DynCell) -> Json {
    let refs: Vec<String> = c.references().map(|x| hex(x.repr_hash().as_slice())).collect();
    assert!(c.reference(refs.len() as u8).is_none() && c.reference_cloned(refs.len() as u8).is_none());
    json!([c.cell_type().to_byte(), c.level_mask().to_byte(), c.level(), hs(c), ds(c), c.bit_len(), hex(c.data()),
        refs, c.has_max_depth(), c.is_empty(), !c.is_exotic() && c.as_slice().is_ok()])
}
fn vview(v: &DynCell, owned: bool) -> Json {
    let refs: Vec<String> = if owned {
        (0..v.reference_count()).map(|i| hex(v.reference_cloned(i).unwrap().repr_hash().as_slice())).collect()
    } else {
        v.references().map(|x| hex(x.repr_hash().as_slice())).collect()
    };
    let full = contiguous(v.level_mask());
    json!([hex(v.repr_hash().as_slice()), v.repr_depth(), cell_bits(v), refs, hex(v.hash(0).as_slice()), v.depth(0),
        if full { hs(v) } else { json!([]) }, if full { ds(v) } else { json!([]) }])
}
#[cfg(feature = "par")]
fn stats(c: &DynCell) -> Json {
    let s = c.stats();
    if s.cell_count >= 1_000_000_000 || s.bit_count >= 1_000_000_000 { json!([]) } else { json!([s.cell_count, s.bit_count]) }
}
#[cfg(not(feature = "par"))]
fn stats(c: &DynCell) -> Json {
    // There are no counters in this build: count the tree.
    fn go(c: &DynCell, memo: &mut HashMap<usize, (u64, u64)>) -> (u64, u64) {
        let p = c as *const DynCell as *const () as usize;
        if let Some(&x) = memo.get(&p) {
            return x;
        }
        let mut r = (1u64, c.bit_len() as u64);
        for x in c.references() {
            let y = go(x, memo);
            r = (r.0.saturating_add(y.0), r.1.saturating_add(y.1));
        }
        memo.insert(p, r);
        r
    }
    let s = go(c, &mut HashMap::new());
    if s.0 >= 1_000_000_000 || s.1 >= 1_000_000_000 { json!([]) } else { json!([s.0, s.1]) }
}

impl M {
    fn c(&self, v: &Json) -> &Cell {
        &self.cells[ju(v) - 1]
    }
    fn put(&mut self, r: Result<Cell, tycho_types::error::Error>) -> Json {
        match r {
            Ok(c) => {
                let owned = Cell::virtualize(c.clone());
                let v = json!(["ok", view(c.as_ref()), vview(c.as_ref().virtualize(), false), vview(owned.as_ref(), true), stats(c.as_ref())]);
                self.cells.push(c);
                v
            }
            Err(e) => err(&e),
        }
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "cell" => {
                let mut b = CellBuilder::new();
                store_bits(&mut b, js(&op["v"])).unwrap();
                for i in op["refs"].as_array().unwrap() {
                    b.store_reference(self.c(i).clone()).unwrap();
                }
                b.set_exotic(ju(&op["x"]) == 1);
                self.put(b.build())
            }
            "prune" => {
                let r = make_pruned_branch(self.c(&op["c"]).as_ref(), ju(&op["n"]) as u8, Cell::empty_context());
                self.put(r)
            }
            "proof" | "update" => {
                let mut b = CellBuilder::new();
                b.set_exotic(true);
                let cs: Vec<Cell> = if js(&op["op"]) == "proof" { vec![self.c(&op["c"]).clone()] } else { vec![self.c(&op["c"]).clone(), self.c(&op["c2"]).clone()] };
                b.store_u8(2 + cs.len() as u8).unwrap();
                for c in &cs {
                    b.store_u256(c.hash(0)).unwrap();
                }
                for c in &cs {
                    b.store_u16(c.depth(0)).unwrap();
                }
                for c in cs {
                    b.store_reference(c).unwrap();
                }
                self.put(b.build())
            }
            "library" => {
                let c = CellBuilder::build_library(&HashBytes::from_slice(&unhex(js(&op["h"]))));
                self.put(Ok(c))
            }
            "eq" => {
                let (a, b) = (self.c(&op["c"]), self.c(&op["c2"]));
                let e = a == b;
                assert_eq!(e, a.as_ref() == b.as_ref());
                json!(["ok", e])
            }
            "walk" => {
                let path: Vec<u8> = op["path"].as_array().unwrap().iter().map(|x| ju(x) as u8 - 1).collect();
                if jb(&op["owned"]) {
                    let mut c = Cell::virtualize(self.c(&op["c"]).clone());
                    for i in path {
                        match c.reference_cloned(i) {
                            Some(x) => c = x,
                            None => return json!(["none"]),
                        }
                    }
                    json!(["ok", vview(c.as_ref(), true)])
                } else {
                    let mut c = self.c(&op["c"]).as_ref().virtualize();
                    for i in path {
                        match c.reference(i) {
                            Some(x) => c = x,
                            None => return json!(["none"]),
                        }
                    }
                    json!(["ok", vview(c, false)])
                }
            }
            "twice" => {
                let mut c: &DynCell = self.c(&op["c"]).as_ref();
                for _ in 0..ju(&op["n"]) {
                    c = c.virtualize();
                }
                json!(["ok", hs(c), ds(c)])
            }
            "static" => {
                let v = js(&op["v"]);
                let c = if v.is_empty() {
                    Cell::empty_cell_ref()
                } else if v.starts_with('0') {
                    Cell::all_zeros_ref()
                } else {
                    Cell::all_ones_ref()
                };
                json!(["ok", hex(c.repr_hash().as_slice()), hex(c.data())])
            }
            "slice" => match self.c(&op["c"]).as_slice() {
                Ok(s) => json!(["ok", slice_bits(&s)]),
                Err(e) => err(&e),
            },
            x => json!(["tool", x]),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

/// One random operation that makes a cell, well-formed or almost.
pub fn gen_cell(r: &mut Rng, cells: &[Cell]) -> Json {
    let n = cells.len();
    let some = |r: &mut Rng| if r.chance(1, 2) { n - r.below(n.min(4)) } else { 1 + r.below(n) };
    if n == 0 {
        let k = r.below(40);
        return json!({"op": "cell", "x": 0, "v": r.bits(k), "refs": []});
    }
    match r.below(20) {
        0..=7 => {
            let k = r.below(5);
            let refs: Vec<usize> = (0..k).map(|_| some(r)).collect();
            let len = *r.pick(&[0, 1, 3, 7, 8, 9, 15, 16, 63, 64, 65, 127, 128, 255, 256, 511, 512, 513, 1015, 1016, 1017, 1022, 1023]);
            let len = if r.flip() { len } else { r.below(1024) };
            json!({"op": "cell", "x": 0, "v": r.mixed_bits(len), "refs": refs})
        }
        8..=11 => json!({"op": "prune", "c": some(r), "n": *r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 7, 8, 9, 255])}),
        12 => json!({"op": "proof", "c": some(r)}),
        13 => json!({"op": "update", "c": some(r), "c2": some(r)}),
        14 => {
            let h = r.bytes(32);
            json!({"op": "library", "h": hex(&h)})
        }
        15 | 16 => {
            // a pruned branch of its own making
            let m = r.range(1, 7) as u8;
            let k = m.count_ones() as usize;
            let mut v = format!("00000001{:08b}", if r.chance(1, 12) { r.below(256) as u8 } else { m });
            for _ in 0..k {
                v += &r.bits(256);
            }
            for _ in 0..k {
                v += &match r.below(6) {
                    0 => "1".repeat(16),
                    1 => "1".repeat(15) + "0",
                    2 => r.bits(16),
                    _ => u128_bits(r.below(2000) as u128, 16),
                };
            }
            json!({"op": "cell", "x": 1, "v": v, "refs": []})
        }
        _ => {
            // some exotic cell with something wrong, or with hashes that say nothing
            let (t, len, k) = *r.pick(&[(1, 288, 0), (1, 560, 0), (1, 832, 0), (2, 264, 0), (3, 280, 1), (4, 552, 2), (0, 280, 1), (5, 280, 1), (255, 8, 0)]);
            let mut v = u128_bits(t, 8);
            if t == 1 {
                v += &u128_bits(r.below(10) as u128, 8);
            }
            let len = match r.below(6) {
                0 => len - 1,
                1 => len + 8,
                2 => r.below(40),
                _ => len,
            };
            v += &r.bits(len.max(16));
            v.truncate(len);
            let k = if r.chance(1, 5) { r.below(5) } else { k };
            let refs: Vec<usize> = (0..k).map(|_| some(r)).collect();
            json!({"op": "cell", "x": 1, "v": v, "refs": refs})
        }
    }
}

pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    // long chains make deep and large trees
    let chain = r.chance(1, 8);
    for i in 0..len {
        let mut op = if i < 3 && seed % 50 == 0 {
            {
            let v = ["".to_owned(), "0".repeat(1023), "1".repeat(1023)];
            json!({"op": "static", "v": v[i]})
        }
        } else if m.cells.len() > 2 && r.chance(2, 5) {
            let n = m.cells.len();
            let c = n - r.below(n.min(6));
            match r.below(4) {
                0 => json!({"op": "eq", "c": c, "c2": 1 + r.below(n)}),
                1 => json!({"op": "slice", "c": c}),
                2 => json!({"op": "twice", "c": c, "n": r.below(5)}),
                _ => {
                    let k = r.below(5);
                    let path: Vec<usize> = (0..k).map(|_| r.range(1, 2)).collect();
                    json!({"op": "walk", "c": c, "path": path, "owned": r.flip()})
                }
            }
        } else if chain && m.cells.len() > 2 {
            let n = m.cells.len();
            let k = r.range(1, 4);
            json!({"op": "cell", "x": 0, "v": r.bits(k), "refs": vec![n; k]})
        } else {
            gen_cell(&mut r, &m.cells)
        };
        op["r"] = m.run(&op);
        ev.push(op);
    }
    Trace { cfg: json!({}), cells: vec![], ev }
}
