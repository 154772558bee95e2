//! Merkle proofs and updates over the cells of `cells.rs`.
use std::collections::HashSet;

use tycho_types::merkle::{FilterAction, MerkleFilter, MerkleProof, MerkleProofRef, MerkleUpdate};
use tycho_types::prelude::*;

use crate::cells;
use crate::util::*;

#[derive(Default)]
pub struct M {
    maker: cells::M,
    ups: Vec<MerkleUpdate>,
}

struct Filter {
    inc: HashSet<HashBytes>,
    sub: HashSet<HashBytes>,
}
impl MerkleFilter for Filter {
    fn check(&self, c: &HashBytes) -> FilterAction {
        if self.inc.contains(c) {
            FilterAction::Include
        } else if self.sub.contains(c) {
            FilterAction::IncludeSubtree
        } else {
            FilterAction::Skip
        }
    }
}

fn hx(h: &HashBytes) -> String {
    hex(h.as_slice())
}
fn show(c: &DynCell) -> Json {
    json!([hx(c.repr_hash()), hx(c.hash(0)), c.depth(0), c.level_mask().to_byte()])
}
type R<T> = Result<T, tycho_types::error::Error>;

impl M {
    fn c(&self, v: &Json) -> &Cell {
        &self.maker.cells[ju(v) - 1]
    }
    fn hashes(&self, v: &Json) -> HashSet<HashBytes> {
        v.as_array().unwrap().iter().map(|i| *self.c(i).repr_hash()).collect()
    }
    #[cfg(feature = "par")]
    fn set(&self, v: &Json) -> ahash::HashSet<HashBytes> {
        v.as_array().unwrap().iter().map(|i| *self.c(i).repr_hash()).collect()
    }
    fn filter(&self, op: &Json) -> Filter {
        Filter { inc: self.hashes(&op["inc"]), sub: self.hashes(&op["sub"]) }
    }
    fn proof(&self, op: &Json, seq: R<MerkleProof>, raw: R<(Cell, Vec<String>)>, more: Vec<R<(Cell, Option<Vec<String>>)>>) -> Json {
        let p = match (&seq, &raw) {
            (Ok(a), Ok(b)) if a.cell == b.0 => a,
            (Err(e), Err(_)) => {
                return if more.iter().all(|x| x.is_err()) { err(e) } else { json!(["differs", "parallel"]) };
            }
            _ => return json!(["differs", "tracking"]),
        };
        let list = &raw.as_ref().unwrap().1;
        for m in more {
            match m {
                Ok((c, l)) if c == p.cell && l.as_ref().is_none_or(|l| l == list) => {}
                Ok(_) => return json!(["differs", "parallel"]),
                Err(e) => return json!(["differs", format!("parallel {e:?}")]),
            }
        }
        let _ = op;
        let stored = CellBuilder::build_from(p);
        let stored = match stored {
            Ok(c) => {
                let ok = c.parse_exotic::<MerkleProof>();
                if ok.as_ref().is_ok_and(|x| x != p) {
                    return json!(["differs", "read back"]);
                }
                json!(["ok", hx(c.repr_hash()), ok.is_ok()])
            }
            Err(e) => err(&e),
        };
        json!(["ok", hx(&p.hash), p.depth, show(p.cell.as_ref()), list, stored])
    }
}

fn list<'a>(v: impl Iterator<Item = &'a HashBytes>) -> Vec<String> {
    let mut v: Vec<String> = v.map(hx).collect();
    v.sort();
    v
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        self.maker.interner()
    }
    fn exec(&mut self, op: &Json) -> Json {
        let cx = Cell::empty_context();
        match js(&op["op"]) {
            "prove" => {
                let f = self.filter(op);
                let root = self.c(&op["c"]).as_ref();
                let (any, big) = (jb(&op["any"]), jb(&op["big"]));
                let seq = if f.sub.is_empty() && jb(&op["plain"]) {
                    MerkleProof::create(root, f.inc.clone()).allow_different_root(any).prune_big_cells(big).build()
                } else {
                    MerkleProof::create(root, &f).allow_different_root(any).prune_big_cells(big).build()
                };
                let raw = MerkleProof::create(root, &f).allow_different_root(any).track_pruned_branches().prune_big_cells(big);
                let raw = raw.allow_different_root(any).build_raw_ext(cx).map(|(c, l)| (c, list(l.iter().copied())));
                #[allow(unused_mut)]
                let mut more = Vec::new();
                #[cfg(feature = "par")]
                for s in op["splits"].as_array().unwrap() {
                    let b = MerkleProof::create(root, &f).allow_different_root(any).prune_big_cells(big);
                    more.push(b.par_build(self.set(s)).map(|p| (p.cell, None)));
                    let b = MerkleProof::create(root, &f).allow_different_root(any).prune_big_cells(big).track_pruned_branches();
                    more.push(b.par_build_raw_ext(cx, self.set(s)).map(|(c, l)| {
                        let mut v = Vec::new();
                        l.scan(|h| v.push(hx(h)));
                        v.sort();
                        (c, Some(v))
                    }));
                }
                self.proof(op, seq, raw, more)
            }
            "provecell" => {
                let root = self.c(&op["c"]).as_ref();
                let h = if ju(&op["c2"]) == 0 { HashBytes([0x4d; 32]) } else { *self.c(&op["c2"]).repr_hash() };
                let big = jb(&op["big"]);
                let seq = MerkleProof::create_for_cell(root, &h).prune_big_cells(big).build();
                let raw = MerkleProof::create_for_cell(root, &h).track_pruned_branches().prune_big_cells(big);
                let raw = raw.build_raw_ext(cx).map(|(c, l)| (c, list(l.iter().copied())));
                self.proof(op, seq, raw, vec![])
            }
            "diff" => {
                let f = self.filter(op);
                let (old, new) = (self.c(&op["c"]).as_ref(), self.c(&op["c2"]).as_ref());
                let u = if f.sub.is_empty() && jb(&op["plain"]) {
                    MerkleUpdate::create(old, new, f.inc.clone()).build()
                } else {
                    MerkleUpdate::create(old, new, &f).build()
                };
                #[cfg(feature = "par")]
                for s in op["splits"].as_array().unwrap() {
                    let v = MerkleUpdate::create(old, new, &f).par_build(self.set(&s[0]), self.set(&s[1]));
                    match (&u, v) {
                        (Ok(u), Ok(v)) if *u == v => {}
                        (Err(_), Err(_)) => {}
                        (Ok(_), Err(e)) => return json!(["differs", format!("{e:?}")]),
                        _ => return json!(["differs", "parallel"]),
                    }
                }
                let u = match u {
                    Ok(u) => u,
                    Err(e) => return err(&e),
                };
                let stored = match CellBuilder::build_from(&u) {
                    Ok(c) => {
                        let ok = c.parse_exotic::<MerkleUpdate>();
                        if ok.as_ref().is_ok_and(|x| *x != u) {
                            return json!(["differs", "read back"]);
                        }
                        json!(["ok", hx(c.repr_hash()), ok.is_ok()])
                    }
                    Err(e) => err(&e),
                };
                let r = json!(["ok", hx(&u.old_hash), hx(&u.new_hash), u.old_depth, u.new_depth, show(u.old.as_ref()), show(u.new.as_ref()), stored]);
                self.ups.push(u);
                r
            }
            "tamper" => {
                let mut u = self.ups[ju(&op["u"]) - 1].clone();
                let v = self.ups[ju(&op["v"]) - 1].clone();
                for w in op["what"].as_array().unwrap() {
                    match ju(w) {
                        1 => u.old_hash = v.old_hash,
                        2 => u.new_hash = v.new_hash,
                        3 => u.old_depth = v.old_depth,
                        4 => u.new_depth = v.new_depth,
                        5 => u.old = v.old.clone(),
                        _ => u.new = v.new.clone(),
                    }
                }
                let r = match CellBuilder::build_from(&u) {
                    Ok(c) => json!(["ok", hx(c.repr_hash()), c.parse_exotic::<MerkleUpdate>().is_ok()]),
                    Err(e) => err(&e),
                };
                self.ups.push(u);
                r
            }
            "apply" => match self.ups[ju(&op["u"]) - 1].apply(self.c(&op["c"])) {
                Ok(c) => json!(["ok", hx(c.repr_hash())]),
                Err(e) => err(&e),
            },
            "removed" => match self.ups[ju(&op["u"]) - 1].compute_removed_cells(self.c(&op["c"]).as_ref()) {
                Ok(m) => {
                    let mut v: Vec<_> = m.into_iter().map(|(h, n)| (hx(h), n)).collect();
                    v.sort();
                    json!(["ok", v])
                }
                Err(e) => err(&e),
            },
            "parse" => {
                let c = self.c(&op["c"]);
                let p = match c.parse_exotic::<MerkleProof>() {
                    Ok(p) => json!(["ok", hx(&p.hash), p.depth, hx(p.cell.repr_hash())]),
                    Err(_) => json!(["err"]),
                };
                let q = match c.parse_exotic::<MerkleProofRef<'_>>() {
                    Ok(p) => json!(["ok", hx(&p.hash), p.depth, hx(p.cell.repr_hash())]),
                    Err(_) => json!(["err"]),
                };
                let u = match c.parse_exotic::<MerkleUpdate>() {
                    Ok(u) => json!(["ok", hx(&u.old_hash), hx(&u.new_hash), u.old_depth, u.new_depth, hx(u.old.repr_hash()), hx(u.new.repr_hash())]),
                    Err(_) => json!(["err"]),
                };
                json!(["ok", p, q, u])
            }
            "deep" => {
                let n = ju(&op["n"]);
                let chain = |v: u32| {
                    let mut all: Vec<Cell> = Vec::new();
                    for i in 0..n {
                        let mut b = CellBuilder::new();
                        b.store_u32(if i == 0 { v } else { i as u32 }).unwrap();
                        if let Some(c) = all.last() {
                            b.store_reference(c.clone()).unwrap();
                        }
                        all.push(b.build().unwrap());
                    }
                    all
                };
                let (a, b) = (chain(1), chain(2));
                let (x, y) = (a.last().unwrap(), b.last().unwrap());
                let all: ahash::HashSet<HashBytes> = a.iter().map(|c| *c.repr_hash()).collect();
                let p = MerkleProof::create(x.as_ref(), all.clone()).build();
                let p = p.is_ok_and(|p| p.cell == *x);
                let u = MerkleUpdate::create(x.as_ref(), y.as_ref(), all).build();
                json!(["ok", p, u.is_ok_and(|u| u.apply(x).is_ok_and(|c| c == *y))])
            }
            _ => {
                let r = self.maker.run(op);
                if r[0] == "ok" {
                    let c = self.maker.cells.last().unwrap();
                    json!(["ok", hx(c.repr_hash())])
                } else {
                    json!([r[0], r[1]])
                }
            }
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

struct Gen {
    r: Rng,
    m: M,
    ev: Vec<Json>,
    ops: Vec<Json>,      // the operation that made each cell
    kids: Vec<Vec<usize>>,
}
impl Gen {
    fn go(&mut self, mut op: Json) -> bool {
        op["r"] = self.m.run(&op);
        let ok = op["r"][0] == "ok";
        self.ev.push(op);
        ok
    }
    fn cell(&mut self, op: Json) -> Option<usize> {
        let kids: Vec<usize> = match js(&op["op"]) {
            "cell" => op["refs"].as_array().unwrap().iter().map(ju).collect(),
            "proof" => vec![ju(&op["c"])],
            "update" => vec![ju(&op["c"]), ju(&op["c2"])],
            _ => vec![],
        };
        if self.go(op.clone()) {
            self.ops.push(op);
            self.kids.push(kids);
            Some(self.kids.len())
        } else {
            None
        }
    }
    fn n(&self) -> usize {
        self.kids.len()
    }
    fn below(&self, c: usize) -> Vec<usize> {
        let mut seen = vec![c];
        let mut i = 0;
        while i < seen.len() {
            for &k in &self.kids[seen[i] - 1] {
                if !seen.contains(&k) {
                    seen.push(k);
                }
            }
            i += 1;
        }
        seen
    }
    fn plain(&self, c: usize) -> bool {
        self.m.maker.cells[c - 1].level_mask().is_empty()
    }
    /// Copies a cell with other children.
    fn with(&mut self, c: usize, kids: Vec<usize>) -> Option<usize> {
        let mut op = self.ops[c - 1].clone();
        match js(&op["op"]) {
            "cell" => op["refs"] = json!(kids),
            "proof" => op["c"] = json!(kids[0]),
            "update" => {
                op["c"] = json!(kids[0]);
                op["c2"] = json!(kids[1]);
            }
            _ => return None,
        }
        self.cell(op)
    }
    /// Changes something somewhere below a cell.
    fn edit(&mut self, c: usize, depth: usize) -> Option<usize> {
        let kids = self.kids[c - 1].clone();
        if kids.is_empty() || (self.r.chance(1, 3) && js(&self.ops[c - 1]["op"]) == "cell" && depth > 0) {
            let k = self.r.below(3);
            let mut refs: Vec<usize> = if self.r.flip() { kids } else { (0..k).map(|_| self.some()).collect() };
            if self.r.chance(1, 3) {
                refs.reverse();
            }
            let len = self.r.below(20);
            let v = self.r.bits(len);
            return self.cell(json!({"op": "cell", "x": 0, "v": v, "refs": refs}));
        }
        let mut kids = kids;
        let j = self.r.below(kids.len());
        kids[j] = self.edit(kids[j], depth + 1)?;
        if self.r.chance(1, 4) {
            let j = self.r.below(kids.len());
            kids[j] = self.edit(kids[j], depth + 1)?;
        }
        self.with(c, kids)
    }
    fn some(&mut self) -> usize {
        let n = self.n();
        if self.r.flip() { n - self.r.below(n.min(4)) } else { 1 + self.r.below(n) }
    }
    fn subset(&mut self, of: &[usize], num: usize, den: usize) -> Vec<usize> {
        let mut v: Vec<usize> = of.iter().copied().filter(|_| self.r.chance(num, den)).collect();
        v.sort();
        v
    }
    /// A set of cells visited from a root: with each its way from the root.
    fn visited(&mut self, root: usize, stop: usize) -> Vec<usize> {
        let mut seen = vec![root];
        let mut i = 0;
        while i < seen.len() {
            for k in self.kids[seen[i] - 1].clone() {
                if !seen.contains(&k) && !self.r.chance(1, stop) {
                    seen.push(k);
                }
            }
            i += 1;
        }
        seen
    }
    fn splits(&mut self, of: &[usize]) -> Vec<Vec<usize>> {
        (0..self.r.below(3)).map(|_| { let d = self.r.range(1, 6); self.subset(of, 1, d) }).collect()
    }
}

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut g = Gen { r: Rng::new(seed), m: M::default(), ev: vec![], ops: vec![], kids: vec![] };
    if seed % 1_000_003 == 0 {
        g.go(json!({"op": "deep", "n": 400}));
    }
    let wild = g.r.chance(1, 3);
    let size = g.r.range(3, 14);
    while g.n() < size {
        let n = g.n();
        let op = if wild || n == 0 {
            cells::gen_cell(&mut g.r, &g.m.maker.cells)
        } else {
            match g.r.below(12) {
                0 => json!({"op": "proof", "c": g.some()}),
                1 => json!({"op": "update", "c": g.some(), "c2": g.some()}),
                2 => json!({"op": "prune", "c": g.some(), "n": g.r.below(2)}),
                3 => {
                    let len = *g.r.pick(&[0, 287, 288, 289, 290, 600, 1023]);
                    json!({"op": "cell", "x": 0, "v": g.r.bits(len), "refs": []})
                }
                _ => {
                    let k = g.r.range(1, 4);
                    let refs: Vec<usize> = (0..k).map(|_| g.some()).collect();
                    let len = g.r.below(12);
                    json!({"op": "cell", "x": 0, "v": g.r.bits(len), "refs": refs})
                }
            }
        };
        g.cell(op);
    }
    if g.r.chance(1, 3) {
        // levels with gaps, closed again by nested Merkle cells
        let mut v = format!("00000001{:08b}", *g.r.pick(&[1, 2, 2, 2, 3, 4, 5, 6]));
        let k = v.matches('1').count() - 1;
        for _ in 0..k {
            v += &g.r.bits(256);
        }
        for _ in 0..k {
            v += &u128_bits(g.r.below(50) as u128, 16);
        }
        let mut c = g.cell(json!({"op": "cell", "x": 1, "v": v, "refs": []}));
        for _ in 0..g.r.range(2, 4) {
            for _ in 0..g.r.range(1, 2) {
                let Some(k) = c else { break };
                let o = g.some();
                let v = g.r.bits(5);
                let refs = match g.r.below(3) { 0 => vec![k], 1 => vec![k, o], _ => vec![o, k] };
                c = g.cell(json!({"op": "cell", "x": 0, "v": v, "refs": refs}));
            }
            let Some(k) = c else { break };
            let o = g.some();
            let op = match g.r.below(3) {
                0 => json!({"op": "update", "c": k, "c2": o}),
                1 => json!({"op": "update", "c": o, "c2": k}),
                _ => json!({"op": "proof", "c": k}),
            };
            c = g.cell(op);
        }
        if let Some(k) = c {
            let o = g.some();
            g.cell(json!({"op": "cell", "x": 0, "v": "1", "refs": [k, o, k]}));
        }
    }
    let mut roots = Vec::new();
    // lists of removed cells come last: a known defect may end a history there
    let mut last = Vec::new();
    for _ in 0..len {
        let n = g.n();
        let mut c = g.some();
        for _ in 0..6 {
            if g.plain(c) && g.kids[c - 1].len() > 0 {
                break;
            }
            c = g.some();
        }
        let all = g.below(c);
        if g.r.chance(1, 8) {
            let c = g.some();
            g.go(json!({"op": "parse", "c": c}));
            if js(&g.ops[c - 1]["op"]) == "proof" || js(&g.ops[c - 1]["op"]) == "update" {
                // the same with something wrong
                let k = g.kids[c - 1].clone();
                let mut v = cell_bits(g.m.maker.cells[c - 1].as_ref());
                let i = g.r.range(8, v.len() - 1);
                let f = if v.as_bytes()[i] == b'1' { "0" } else { "1" };
                v.replace_range(i..i + 1, f);
                if let Some(k) = g.cell(json!({"op": "cell", "x": 1, "v": v, "refs": k})) {
                    g.go(json!({"op": "parse", "c": k}));
                }
            }
        } else if sel == "proof" {
            let op = match g.r.below(8) {
                0 | 1 => json!({"op": "provecell", "c": c, "c2": if g.r.chance(1, 8) { 0 } else if g.r.chance(1, 8) { g.some() } else { *g.r.pick(&all) }, "big": g.r.flip()}),
                k => {
                    let inc = if k < 5 { let d = g.r.range(2, 8); g.visited(c, d) } else { let (a, b) = (g.r.below(4), 3); g.subset(&all, a, b) };
                    let sub = if g.r.chance(1, 3) { g.subset(&all, 1, 4) } else { vec![] };
                    json!({"op": "prove", "c": c, "inc": inc, "sub": sub, "big": g.r.chance(1, 3), "any": g.r.chance(1, 5), "plain": g.r.flip(), "splits": g.splits(&all)})
                }
            };
            g.go(op);
        } else {
            match g.r.below(10) {
                0..=4 => {
                    let d = if g.r.chance(1, 12) { Some(g.some()) } else if g.r.chance(1, 8) { Some(*g.r.pick(&all)) } else { g.edit(c, 0) };
                    let d = if g.r.chance(1, 6) { d.and_then(|d| g.edit(d, 0)) } else { d };
                    let Some(mut d) = d else { continue };
                    let (mut c, mut all) = (c, all);
                    if g.r.chance(1, 6) {
                        std::mem::swap(&mut c, &mut d);
                        all = g.below(c);
                    }
                    let inc = match g.r.below(6) {
                        0 => all.clone(),
                        1 => g.subset(&all, 2, 3),
                        2 => { let n = g.n(); let any: Vec<usize> = (1..=n).collect(); g.subset(&any, 2, 3) }
                        _ => { let d = g.r.range(2, 9); g.visited(c, d) }
                    };
                    let sub = if g.r.chance(1, 4) { g.subset(&all, 1, 4) } else { vec![] };
                    let bd = g.below(d);
                    let mut splits = Vec::new();
                    for s in g.splits(&all) {
                        splits.push(vec![s, g.subset(&bd, 1, 3)]);
                    }
                    let plain = g.r.flip();
                    if g.go(json!({"op": "diff", "c": c, "c2": d, "inc": inc, "sub": sub, "plain": plain, "splits": splits})) {
                        roots.push(c);
                        let u = g.m.ups.len();
                        g.go(json!({"op": "apply", "u": u, "c": c}));
                        last.push(json!({"op": "removed", "u": u, "c": c}));
                    }
                }
                5 if !g.m.ups.is_empty() => {
                    let k = g.m.ups.len();
                    let what: Vec<usize> = g.subset(&[1, 2, 3, 4, 5, 6], 1, 3);
                    let (u, v) = (g.r.range(1, k), g.r.range(1, k));
                    g.go(json!({"op": "tamper", "u": u, "v": v, "what": what}));
                }
                6 | 7 if !g.m.ups.is_empty() => {
                    let u = g.r.range(1, g.m.ups.len());
                    let c = if g.r.flip() && !roots.is_empty() { *g.r.pick(&roots) } else { g.r.range(1, n) };
                    let op = if g.r.flip() { "apply" } else { "removed" };
                    let op = json!({"op": op, "u": u, "c": c});
                    if op["op"] == "removed" { last.push(op) } else { g.go(op); }
                }
                _ => {}
            }
        }
    }
    for op in last {
        g.go(op);
    }
    Trace { cfg: json!({}), cells: vec![], ev: g.ev }
}
