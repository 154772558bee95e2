//! Reading through usage trees.
use tycho_types::cell::{UsageTree, UsageTreeMode, UsageTreeWithSubtrees};
use tycho_types::dict::RawDict;
use tycho_types::merkle::MerkleProof;
use tycho_types::prelude::*;

use crate::util::*;

enum Tree {
    Plain(UsageTree),
    Sub(UsageTreeWithSubtrees),
}
impl Tree {
    fn track(&self, c: &Cell) -> Cell {
        match self {
            Tree::Plain(t) => t.track(c),
            Tree::Sub(t) => t.track(c),
        }
    }
    fn contains(&self, h: &HashBytes) -> bool {
        match self {
            Tree::Plain(t) => t.contains(h),
            Tree::Sub(t) => t.contains_direct(h),
        }
    }
}

#[derive(Default)]
pub struct M {
    it: Interner,
    hs: Vec<Option<(Cell, usize)>>,
    trees: Vec<Option<Tree>>,
}
type D = RawDict<16>;

fn key(v: &Json) -> Cell {
    let mut b = CellBuilder::new();
    store_bits(&mut b, js(v)).unwrap();
    b.build().unwrap()
}
fn paths(v: &Json) -> Vec<Vec<u8>> {
    v.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| ju(x) as u8 - 1).collect()).collect()
}
fn mode(v: &Json) -> UsageTreeMode {
    if js(v) == "load" { UsageTreeMode::OnLoad } else { UsageTreeMode::OnDataAccess }
}
/// What can be known of a cell without reading its data.
fn peek(c: &DynCell) -> Json {
    json!([c.is_exotic() as u8, c.bit_len(), c.reference_count()])
}
fn at(c: &DynCell, path: &[u8]) -> Option<String> {
    let mut c = c;
    for &i in path {
        if c.is_exotic() {
            return None;
        }
        c = c.reference(i).unwrap();
    }
    if c.is_exotic() { None } else { Some(cell_bits(c)) }
}

impl M {
    fn c(&self, v: &Json) -> &(Cell, usize) {
        self.hs[ju(v) - 1].as_ref().unwrap()
    }
    fn child(&self, id: usize, i: usize) -> Option<usize> {
        self.it.table[id - 1][2].get(i).map(ju)
    }
    fn put(&mut self, c: Cell, id: usize) -> Json {
        let v = json!(["ok", id, peek(c.as_ref())]);
        self.hs.push(Some((c, id)));
        v
    }
    fn tree(&self, v: &Json) -> &Tree {
        self.trees[ju(v) - 1].as_ref().unwrap()
    }
    fn marks(&self, has: impl Fn(&HashBytes) -> bool) -> String {
        self.it.cells.iter().map(|c| if has(c.repr_hash()) { '1' } else { '0' }).collect()
    }
    /// Several threads read through the same tracked root.
    fn par(&self, op: &Json, root: &Cell) -> Json {
        let jobs: Vec<(Vec<Vec<u8>>, bool)> = op["jobs"].as_array().unwrap().iter().map(|j| (paths(&j[0]), jb(&j[1]))).collect();
        let mut first: Option<String> = None;
        for rep in 0..4 {
            let tree = UsageTree::new(mode(&op["mode"]));
            let tracked = tree.track(root);
            let work = |n: usize| -> bool {
                let (ps, data) = &jobs[n];
                // each starts elsewhere
                (0..ps.len()).all(|k| {
                    let p = &ps[(k + rep * n) % ps.len()];
                    let mut c = tracked.clone();
                    let mut o = root.clone();
                    for &i in p {
                        c = if (rep + n) & 1 == 0 { c.reference_cloned(i).unwrap() } else { c.reference(i).unwrap(); c.reference_cloned(i).unwrap() };
                        o = o.reference_cloned(i).unwrap();
                    }
                    peek(c.as_ref()) == peek(o.as_ref()) && c.repr_hash() == o.repr_hash() && (!data || c.data() == o.data())
                })
            };
            #[cfg(feature = "par")]
            let ok = {
                let start = std::sync::Barrier::new(jobs.len());
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..jobs.len()).map(|n| { let (w, b) = (&work, &start); s.spawn(move || { b.wait(); w(n) }) }).collect();
                    hs.into_iter().all(|h| h.join().unwrap())
                })
            };
            #[cfg(not(feature = "par"))]
            let ok = (0..jobs.len()).all(work);
            if !ok {
                return json!(["differs", "data"]);
            }
            drop(tracked);
            let s = self.marks(|h| tree.contains(h));
            let n = s.bytes().filter(|x| *x == b'1').count();
            if tree.len() != n || first.as_ref().is_some_and(|f| *f != s) {
                return json!(["differs", "record", first, s, tree.len()]);
            }
            first = Some(s);
        }
        json!(["ok", first])
    }
    fn with_dict<T>(c: &Cell, f: impl FnOnce(&mut D) -> T) -> (T, Option<Cell>) {
        let mut d = D::from(Some(c.clone()));
        let r = f(&mut d);
        (r, d.into_root())
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "cell" => {
                let mut b = CellBuilder::new();
                store_bits(&mut b, js(&op["v"])).unwrap();
                for i in op["refs"].as_array().unwrap() {
                    // only originals are built into cells
                    b.store_reference(self.it.get(self.c(i).1)).unwrap();
                }
                b.set_exotic(ju(&op["x"]) == 1);
                match b.build() {
                    Ok(c) => {
                        let id = self.it.add(&c);
                        self.put(c, id)
                    }
                    Err(e) => err(&e),
                }
            }
            "dict" => {
                let mut d = D::new();
                for (i, k) in op["ks"].as_array().unwrap().iter().enumerate() {
                    d.set(key(k).as_slice().unwrap(), i as u32).unwrap();
                }
                let c = d.into_root().unwrap();
                let id = self.it.add(&c);
                self.put(c, id)
            }
            "tree" => {
                let t = if jb(&op["cap"]) { UsageTree::with_mode_and_capacity(mode(&op["mode"]), 10) } else { UsageTree::new(mode(&op["mode"])) };
                let r = json!(["ok", t.len(), t.is_empty()]);
                self.trees.push(Some(Tree::Plain(t)));
                r
            }
            "track" => {
                let (c, id) = self.c(&op["c"]).clone();
                let t = self.tree(&op["t"]).track(&c);
                self.put(t, id)
            }
            "ref" => {
                let (c, id) = self.c(&op["c"]).clone();
                let i = ju(&op["i"]) as u8 - 1;
                let x = match js(&op["how"]) {
                    "cloned" => c.reference_cloned(i),
                    "ref" => c.reference(i).map(|x| {
                        let p = peek(x);
                        let y = c.reference_cloned(i).unwrap();
                        assert!(p == peek(y.as_ref()));
                        y
                    }),
                    "iter" => c.references().cloned().nth(i as usize),
                    _ => match c.as_slice_allow_exotic().get_reference_cloned(i) {
                        Ok(x) => Some(x),
                        Err(_) => None,
                    },
                };
                match x {
                    Some(x) => {
                        let n = self.child(id, i as usize).unwrap();
                        self.put(x, n)
                    }
                    None => json!(["none"]),
                }
            }
            "data" => {
                let c = &self.c(&op["c"]).0;
                json!(["ok", if jb(&op["slice"]) { slice_bits(&c.as_slice_allow_exotic()) } else { cell_bits(c.as_ref()) }])
            }
            "peek" => {
                let (c, id) = self.c(&op["c"]);
                let o = if op["v"] == true { Cell::virtualize(self.it.get(*id)) } else { self.it.get(*id) };
                let same = (0..4).all(|l| c.hash(l) == o.hash(l) && c.depth(l) == o.depth(l)) && c.level() == o.level() && *c == o;
                json!(["ok", peek(c.as_ref()), same])
            }
            "virt" => {
                let (c, id) = self.c(&op["c"]).clone();
                self.put(Cell::virtualize(c), id)
            }
            "untrack" => {
                let (c, id) = self.hs[ju(&op["c"]) - 1].take().unwrap();
                self.put(c.untrack(), id)
            }
            "drop" => {
                self.hs[ju(&op["c"]) - 1] = None;
                json!(["ok"])
            }
            "dropt" => {
                self.trees[ju(&op["t"]) - 1] = None;
                json!(["ok"])
            }
            "subs" => {
                let i = ju(&op["t"]) - 1;
                let Some(Tree::Plain(t)) = self.trees[i].take() else { unreachable!() };
                self.trees[i] = Some(Tree::Sub(t.with_subtrees()));
                json!(["ok"])
            }
            "addsub" => {
                let c = self.c(&op["c"]).0.clone();
                let Some(Tree::Sub(t)) = self.trees[ju(&op["t"]) - 1].as_mut() else { unreachable!() };
                json!(["ok", t.add_subtree(c.as_ref())])
            }
            "rec" => {
                let t = self.tree(&op["t"]);
                let s = self.marks(|h| t.contains(h));
                match t {
                    Tree::Plain(t) => json!(["ok", s, t.len(), t.is_empty()]),
                    Tree::Sub(t) => {
                        let sub = self.marks(|h| t.contains_subtree(h));
                        json!(["ok", s, sub])
                    }
                }
            }
            "touch" => {
                let c = &self.c(&op["c"]).0;
                c.touch_recursive();
                json!(["ok"])
            }
            "count" => {
                let c = &self.c(&op["c"]).0;
                let s = c.compute_unique_stats(usize::MAX).unwrap();
                json!(["ok", s.cell_count])
            }
            "par" => {
                let root = self.it.get(self.c(&op["c"]).1);
                self.par(op, &root)
            }
            // a proof from the record, and what can be read from it
            "proof" => {
                let root = self.it.get(self.c(&op["c"]).1);
                let p = match self.tree(&op["t"]) {
                    Tree::Plain(t) => MerkleProof::create(root.as_ref(), t).build(),
                    Tree::Sub(t) => MerkleProof::create(root.as_ref(), t).build(),
                };
                match p {
                    Ok(p) => {
                        let v = p.cell.as_ref().virtualize();
                        let rs: Vec<Json> = paths(&op["paths"]).iter().map(|q| at(v, q).map_or(json!(["cut"]), |x| json!(["ok", x]))).collect();
                        json!(["ok", rs, p.hash == *root.repr_hash() && v.repr_hash() == root.repr_hash()])
                    }
                    Err(e) => err(&e),
                }
            }
            "dget" | "dset" | "ddel" | "diter" => {
                // the same on the original, the tracked cell, and a proof of what was read
                let (c, id) = self.c(&op["c"]).clone();
                let orig = self.it.get(id);
                let tree = UsageTree::new(mode(&op["mode"]));
                let tracked = tree.track(&c);
                let kc = if js(&op["op"]) == "diter" { Cell::default() } else { key(&op["k"]) };
                let run = |c: &Cell| -> (Json, Option<HashBytes>) {
                    let (r, root) = M::with_dict(c, |d| {
                        let k = kc.as_slice().unwrap();
                        match js(&op["op"]) {
                            "dget" => match d.get(k) {
                                Ok(Some(s)) => json!(["ok", slice_bits(&s)]),
                                Ok(None) => json!(["none"]),
                                Err(e) => err(&e),
                            },
                            "dset" => match d.set(k, 7u32) {
                                Ok(x) => json!(["ok", x]),
                                Err(e) => err(&e),
                            },
                            "ddel" => match d.remove(k) {
                                Ok(Some(s)) => json!(["ok", slice_bits(&s.0.apply(&s.1).unwrap())]),
                                Ok(None) => json!(["none"]),
                                Err(e) => err(&e),
                            },
                            _ => {
                                let mut n = 0;
                                for x in d.iter() {
                                    if let Err(e) = x {
                                        return err(&e);
                                    }
                                    n += 1;
                                }
                                json!(["ok", n])
                            }
                        }
                    });
                    (r, root.map(|x| *x.hash(0)))
                };
                let a = run(&orig);
                let b = run(&tracked);
                if a != b {
                    return json!(["differs", "tracked", a.0, b.0]);
                }
                let s = self.marks(|h| tree.contains(h));
                drop(tracked);
                let p = match MerkleProof::create(orig.as_ref(), &tree).build() {
                    Ok(p) => p,
                    Err(e) => return json!(["differs", "no proof", format!("{e:?}")]),
                };
                let v = Cell::virtualize(p.cell);
                let w = run(&v);
                if a != w {
                    return json!(["differs", "proof", a.0, w.0]);
                }
                json!(["ok", a.0, s])
            }
            x => json!(["tool", x]),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

impl M {
    fn rand_path(&self, r: &mut Rng, id: usize) -> Vec<usize> {
        let mut p = Vec::new();
        let mut id = id;
        while !r.chance(1, 6) {
            let refs = self.it.table[id - 1][2].as_array().unwrap();
            if refs.is_empty() {
                break;
            }
            let i = r.below(refs.len());
            id = ju(&refs[i]);
            p.push(i + 1);
        }
        p
    }
    fn plain(&self, id: usize) -> bool {
        let row = &self.it.table[id - 1];
        ju(&row[0]) == 0 && row[2].as_array().unwrap().iter().all(|x| self.plain(ju(x)))
    }
}

pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev: Vec<Json> = Vec::new();
    let exotic = r.chance(1, 4);
    let mut dicts: Vec<(usize, Vec<String>)> = Vec::new();
    let mut tracked: Vec<bool> = Vec::new();
    let mut virt: Vec<bool> = Vec::new();
    for _ in 0..len {
        let live: Vec<usize> = (1..=m.hs.len()).filter(|&i| m.hs[i - 1].is_some()).collect();
        let trees: Vec<usize> = (1..=m.trees.len()).filter(|&i| m.trees[i - 1].is_some()).collect();
        let roots: Vec<usize> = live.iter().cloned().filter(|&i| !tracked[i - 1]).collect();
        let mut op = if live.len() < 2 || m.it.table.is_empty() || (m.hs.len() < 14 && r.chance(2, 3)) {
            let k = if live.is_empty() { 0 } else { r.below(5) };
            let refs: Vec<usize> = (0..k).map(|_| if r.flip() { live[live.len() - 1 - r.below(live.len().min(3))] } else { *r.pick(&live) }).collect();
            match r.below(10) {
                0 if exotic => {
                    let mut v = "0000000100000001".to_owned();
                    v += &r.bits(256);
                    v += "000000000000";
                    v += &r.bits(4);
                    json!({"op": "cell", "x": 1, "v": v, "refs": []})
                }
                1 | 2 if dicts.is_empty() => {
                    let n = r.range(1, 12);
                    let near = r.flip();
                    let base = r.bits(16);
                    let mut ks: Vec<String> = (0..n).map(|_| if near { base[..12].to_owned() + &r.bits(4) } else { r.bits(16) }).collect();
                    ks.sort();
                    ks.dedup();
                    dicts.push((m.hs.len() + 1, ks.clone()));
                    json!({"op": "dict", "ks": ks})
                }
                _ => {
                    let n = r.below(20);
                    json!({"op": "cell", "x": 0, "v": r.bits(n), "refs": refs})
                }
            }
        } else if trees.is_empty() || r.chance(1, 15) {
            json!({"op": "tree", "mode": *r.pick(&["load", "data"]), "cap": r.chance(1, 4)})
        } else {
            let c = *r.pick(&live);
            let t = *r.pick(&trees);
            let recent: Vec<usize> = live.iter().cloned().filter(|&i| tracked[i - 1]).collect();
            // mostly work on what is tracked
            let w = if !recent.is_empty() && r.chance(4, 5) { *r.pick(&recent) } else { c };
            let id = m.hs[w - 1].as_ref().unwrap().1;
            match r.below(30) {
                0..=3 => {
                    let late = *r.pick(&live);
                    let c = if r.flip() { c } else { c.max(late) };
                    // a virtualized cell has another identity
                    if virt[c - 1] && !m.plain(m.hs[c - 1].as_ref().unwrap().1) {
                        json!({"op": "rec", "t": t})
                    } else {
                        json!({"op": "track", "t": t, "c": c})
                    }
                }
                4..=9 => json!({"op": "ref", "c": w, "i": r.range(1, 4), "how": *r.pick(&["cloned", "ref", "iter", "slice"])}),
                10..=13 => json!({"op": "data", "c": w, "slice": r.flip()}),
                14 => json!({"op": "peek", "c": w, "v": virt[w - 1]}),
                15 => json!({"op": "virt", "c": w}),
                16 if m.plain(id) => json!({"op": "untrack", "c": w}),
                17 => json!({"op": "drop", "c": w}),
                18 if r.chance(1, 3) => json!({"op": "dropt", "t": t}),
                19 if r.chance(1, 2) => match &m.trees[t - 1] {
                    Some(Tree::Plain(_)) => json!({"op": "subs", "t": t}),
                    _ => json!({"op": "addsub", "t": t, "c": w}),
                },
                20 => json!({"op": if r.flip() { "touch" } else { "count" }, "c": w}),
                21..=23 => json!({"op": "rec", "t": t}),
                24 | 25 if m.plain(id) => {
                    let ps: Vec<Vec<usize>> = (0..4).map(|_| m.rand_path(&mut r, id)).collect();
                    json!({"op": "proof", "t": t, "c": w, "paths": ps})
                }
                26 | 27 => {
                    let root = if roots.is_empty() { c } else { *roots.iter().max().unwrap() };
                    let id = m.hs[root - 1].as_ref().unwrap().1;
                    let jobs: Vec<Json> = (0..r.range(2, 4))
                        .map(|_| {
                            let ps: Vec<Vec<usize>> = (0..r.range(1, 5)).map(|_| m.rand_path(&mut r, id)).collect();
                            json!([ps, r.flip()])
                        })
                        .collect();
                    json!({"op": "par", "c": root, "mode": *r.pick(&["load", "data"]), "jobs": jobs})
                }
                _ if !dicts.is_empty() && m.hs[dicts[0].0 - 1].is_some() => {
                    let (c, ks) = &dicts[0];
                    let k = if r.chance(2, 3) { r.pick(ks).clone() } else { r.bits(16) };
                    json!({"op": *r.pick(&["dget", "dset", "ddel", "diter"]), "c": c, "k": k, "mode": *r.pick(&["load", "data"])})
                }
                _ => json!({"op": "rec", "t": t}),
            }
        };
        op["r"] = m.run(&op);
        let from = op["op"].as_str().unwrap().to_owned();
        while tracked.len() < m.hs.len() {
            virt.push(match from.as_str() {
                "virt" => true,
                "ref" | "untrack" => virt[ju(&op["c"]) - 1],
                _ => false,
            });
            tracked.push(match from.as_str() {
                "track" => true,
                "ref" | "virt" | "untrack" => tracked[ju(&op["c"]) - 1],
                _ => false,
            });
        }
        ev.push(op);
    }
    Trace { cfg: json!({}), cells: std::mem::take(&mut m.it.table), ev }
}
