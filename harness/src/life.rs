//! When cells live. Every history runs in a process of its own, which may die.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell as Flag;
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

use tycho_types::boc::Boc;
use tycho_types::cell::{CellSliceParts, UsageTree, UsageTreeMode, WeakCell};
use tycho_types::dict::RawDict;
use tycho_types::prelude::*;

use crate::util::*;

/// Counts what is allocated and freed while calling the code under test.
pub struct Counting;
thread_local! {
    static ON: Flag<bool> = const { Flag::new(false) };
}
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static QUARANTINE: AtomicBool = AtomicBool::new(false);
fn on() -> bool {
    ON.try_with(|x| x.get()).unwrap_or(false)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() {
            BLOCKS.fetch_add(1, SeqCst);
            BYTES.fetch_add(l.size() as i64, SeqCst);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() {
            BLOCKS.fetch_sub(1, SeqCst);
            BYTES.fetch_sub(l.size() as i64, SeqCst);
            if QUARANTINE.load(SeqCst) {
                // never given out again, and useless for who still looks at it
                unsafe { std::ptr::write_bytes(p, 0xdd, l.size()) };
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}
fn counted<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|x| x.replace(true));
    let r = f();
    ON.with(|x| x.set(was));
    r
}
fn total() -> (i64, i64) {
    (BLOCKS.load(SeqCst), BYTES.load(SeqCst))
}

enum H {
    Gone,
    Cell(Cell),
    Parts(CellSliceParts),
}

#[derive(Default)]
pub struct M {
    it: Interner,
    weak: bool,
    hs: Vec<H>,
    nodes: Vec<Option<WeakCell>>,
    tree: Option<UsageTree>,
}

impl M {
    fn c(&self, v: &Json) -> &Cell {
        match &self.hs[ju(v) - 1] {
            H::Cell(c) => c,
            H::Parts(p) => &p.1,
            H::Gone => panic!("no such handle"),
        }
    }
    fn state(&self) -> Json {
        if self.weak {
            json!(self.nodes.iter().map(|w| match w { None => '-', Some(w) => if w.upgrade().is_some() { '1' } else { '0' } }).collect::<String>())
        } else {
            let (a, b) = total();
            json!([a, b])
        }
    }
    /// A new handle; a new node is watched when it is a cell of its own.
    fn put(&mut self, c: Cell, new: Option<bool>) -> Json {
        match new {
            Some(true) if self.weak => self.nodes.push(Some(Cell::downgrade(&c))),
            Some(_) => self.nodes.push(None),
            None => {}
        }
        self.hs.push(H::Cell(c));
        self.done()
    }
    fn done(&self) -> Json {
        json!(["ok", self.state()])
    }
}

fn build(v: &str, x: bool, refs: &[&Cell]) -> Result<Cell, tycho_types::error::Error> {
    let mut b = CellBuilder::new();
    store_bits(&mut b, v).unwrap();
    for &c in refs {
        b.store_reference(c.clone()).unwrap();
    }
    b.set_exotic(x);
    b.build()
}

/// Makes a deep tree and drops it, with little stack.
fn deep(how: &str, n: usize) -> String {
    let leaf = build("1", false, &[]).unwrap();
    let num = |i: usize| u128_bits(i as u128, 20);
    let chain = |bottom: Cell, n: usize, place: &dyn Fn(usize) -> (usize, usize)| {
        let mut c = bottom;
        for i in 0..n {
            let (at, of) = place(i);
            let refs: Vec<&Cell> = (0..of).map(|k| if k == at { &c } else { &leaf }).collect();
            c = build(&num(i), false, &refs).unwrap();
        }
        c
    };
    let pruned = || build(&("0000000100000001".to_owned() + &"0".repeat(272)), true, &[]).unwrap();
    let single = |_: usize| (0, 1);
    match how {
        "chain" => drop(chain(leaf.clone(), n, &single)),
        "first" => drop(chain(leaf.clone(), n, &|_| (0, 3))),
        "last" => drop(chain(leaf.clone(), n, &|_| (3, 4))),
        "zigzag" => drop(chain(leaf.clone(), n, &|i| (i % 4, 4))),
        "mixed" => drop(chain(leaf.clone(), n, &|i| ((i * 7 / 3) % (1 + i % 4), 1 + i % 4))),
        "ladder" => {
            let mut c = leaf.clone();
            for i in 0..n {
                c = build(&num(i), false, &[&c, &c]).unwrap();
            }
            drop(c)
        }
        "two" => {
            let (mut a, mut b) = (leaf.clone(), build("0", false, &[]).unwrap());
            for i in 0..n {
                (a, b) = (build(&("0".to_owned() + &num(i)), false, &[&a, &b]).unwrap(), build(&("1".to_owned() + &num(i)), false, &[&b, &a]).unwrap());
            }
            drop(a);
            drop(b);
        }
        "comb" => {
            // chains as branches of a chain
            let mut c = leaf.clone();
            for i in 0..200 {
                let side = chain(leaf.clone(), n / 200, &|k| ((k + i) % 2, 2));
                c = if i % 2 == 0 { build(&num(i), false, &[&c, &side]).unwrap() } else { build(&num(i), false, &[&side, &c]).unwrap() };
            }
            drop(c)
        }
        "held" => {
            let mid = chain(leaf.clone(), n / 2, &single);
            let top = chain(mid.clone(), n / 2, &|i| (i % 2, 2));
            drop(top);
            drop(mid);
        }
        "builder" => {
            let mut b = CellBuilder::new();
            b.store_reference(chain(leaf.clone(), n, &single)).unwrap();
            drop(b);
        }
        "slice" => {
            let p: CellSliceParts = chain(leaf.clone(), n, &single).into();
            drop(p);
        }
        "boc" => drop(Boc::decode(Boc::encode(chain(leaf.clone(), n, &|i| (i % 2, 2)))).unwrap()),
        "virt" => drop(Cell::virtualize(chain(pruned(), n, &|i| (i % 2, 2)))),
        "vread" => {
            let mut c = Cell::virtualize(chain(pruned(), n, &single));
            for _ in 0..n {
                c = c.reference_cloned(0).unwrap();
            }
            drop(c);
        }
        "eq" => {
            let (a, b) = (chain(leaf.clone(), n, &single), chain(leaf.clone(), n, &single));
            let c = chain(pruned(), n, &single);
            if a != b || a.as_ref() != b.as_ref() || a == c {
                return "unequal".to_owned();
            }
        }
        "trackin" | "virtin" | "mixin" => {
            // cells on wrapped cells on cells, in any place
            let tree = if how == "virtin" { None } else { Some(UsageTree::new(UsageTreeMode::OnLoad)) };
            let track = |c: &Cell| tree.as_ref().unwrap().track(c);
            let virt = |c: &Cell| Cell::virtualize(c.clone());
            let mut c = pruned();
            for i in 0..n {
                let w = match (how, i % 3) {
                    ("virtin", _) => virt(&c),
                    ("trackin", _) | (_, 0) => track(&c),
                    (_, 1) => virt(&c),
                    _ => virt(&track(&c)),
                };
                let of = 1 + (i / 50) % 4;
                let at = if i % 2 == 0 { of - 1 } else { (i / 7) % of };
                let refs: Vec<&Cell> = (0..of).map(|k| if k == at { &w } else { &leaf }).collect();
                c = build(&num(i), false, &refs).unwrap();
            }
            drop(c);
        }
        "tracked" => {
            let tree = UsageTree::new(UsageTreeMode::OnDataAccess);
            let root = tree.track(&chain(leaf.clone(), n, &single));
            let mut c = root.clone();
            for _ in 0..n {
                c = c.reference_cloned(0).unwrap();
            }
            drop(c);
            drop(root);
        }
        "weak" => {
            let mut ws = Vec::new();
            let mut c = leaf.clone();
            for i in 0..n {
                c = build(&num(i), false, &[&c]).unwrap();
                ws.push(Cell::downgrade(&c));
            }
            drop(c);
            if ws.iter().any(|w| w.upgrade().is_some()) {
                return "alive".to_owned();
            }
        }
        #[cfg(feature = "par")]
        "threads" => {
            let c = chain(leaf.clone(), n, &|i| (i % 2, 2));
            let mut mids = vec![c.clone()];
            let mut x = c;
            for i in 0..n {
                x = x.reference_cloned(((n - 1 - i) % 2) as u8).unwrap();
                if i % (n / 40 + 1) == 0 {
                    mids.push(x.clone());
                }
            }
            drop(x);
            let mut parts: Vec<Vec<Cell>> = (0..4).map(|k| mids.iter().skip(k).step_by(4).cloned().collect()).collect();
            drop(mids);
            let b = std::sync::Barrier::new(4);
            // what threads need is not counted
            let was = ON.with(|x| x.replace(false));
            std::thread::scope(|s| {
                for p in parts.drain(..) {
                    let b = &b;
                    std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || { b.wait(); counted(move || drop(p)) }).unwrap();
                }
            });
            ON.with(|x| x.set(was));
        }
        #[cfg(not(feature = "par"))]
        "threads" => {}
        x => return format!("unknown {x}"),
    }
    "done".to_owned()
}

fn churn(how: &str, n: usize) -> bool {
    let leaf = build("1", false, &[]).unwrap();
    match how {
        "dict" => {
            let mut d = RawDict::<16>::new();
            for i in 0..n {
                let k = CellBuilder::build_from((i * 40503) as u16).unwrap();
                d.set(k.as_slice().unwrap(), &leaf).unwrap();
                if i % 3 == 0 {
                    let k = CellBuilder::build_from(((i / 2) * 40503) as u16).unwrap();
                    d.remove(k.as_slice().unwrap()).unwrap();
                }
            }
            n < 2 || d.iter().count() > 0
        }
        "boc" => {
            let mut c = leaf.clone();
            for i in 0..n {
                c = build(&u128_bits(i as u128, 16), false, &[&c, &leaf]).unwrap();
            }
            let b = Boc::encode(&c);
            let bad = Boc::decode(&b[..b.len() - 1]).is_err() && Boc::decode(&b[1..]).is_err();
            Boc::decode(&b).unwrap() == c && bad
        }
        "errors" => {
            // builds that fail drop what they were given
            (0..n).all(|_| {
                let mut b = CellBuilder::new();
                for _ in 0..4 {
                    b.store_reference(build("01", false, &[&leaf]).unwrap()).unwrap();
                }
                let e = b.store_reference(build("10", false, &[&leaf]).unwrap()).is_err();
                b.set_exotic(true);
                e && b.build().is_err()
            })
        }
        _ => {
            let c = build("0101", false, &[&leaf, &leaf]).unwrap();
            (0..n).all(|_| {
                let mut s = c.as_slice().unwrap();
                let a = s.load_reference_cloned().unwrap();
                let p: CellSliceParts = c.clone().into();
                let q = p.clone();
                a == leaf && q.1 == p.1
            })
        }
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "cell" => {
                let v = js(&op["v"]);
                let x = ju(&op["x"]) == 1;
                let refs: Vec<Cell> = op["refs"].as_array().unwrap().iter().map(|i| self.c(i).clone()).collect();
                let refs2: Vec<&Cell> = refs.iter().collect();
                let c = counted(|| build(v, x, &refs2));
                drop(refs2);
                drop(refs);
                match c {
                    Ok(c) => self.put(c, Some(true)),
                    Err(e) => err(&e),
                }
            }
            "boc" => {
                let c = self.c(&op["c"]).clone();
                let b = Boc::encode(&c);
                drop(c);
                let c = counted(|| Boc::decode(&b).unwrap());
                self.put(c, Some(true))
            }
            "clone" => {
                let c = self.c(&op["c"]).clone();
                self.put(c, None)
            }
            "child" => {
                let i = ju(&op["i"]) as u8 - 1;
                let c = {
                    let p = self.c(&op["c"]);
                    counted(|| if jb(&op["slice"]) { p.as_slice_allow_exotic().get_reference_cloned(i).unwrap() } else { p.reference_cloned(i).unwrap() })
                };
                self.put(c, if jb(&op["plain"]) { None } else { Some(false) })
            }
            "parts" => {
                let c = self.c(&op["c"]).clone();
                let p: CellSliceParts = counted(|| c.into());
                self.hs.push(H::Parts(p));
                self.done()
            }
            "virt" => {
                let c = self.c(&op["c"]).clone();
                let c = counted(|| Cell::virtualize(c));
                self.put(c, Some(false))
            }
            "track" => {
                let c = self.c(&op["c"]).clone();
                let t = self.tree.get_or_insert_with(|| UsageTree::new(UsageTreeMode::OnLoad));
                let c = t.track(&c);
                self.put(c, Some(false))
            }
            "untrack" => {
                let c = match std::mem::replace(&mut self.hs[ju(&op["c"]) - 1], H::Gone) {
                    H::Cell(c) => c,
                    H::Parts(p) => p.1,
                    H::Gone => unreachable!(),
                };
                let c = c.untrack();
                self.put(c, None)
            }
            "up" => {
                let c = self.nodes[ju(&op["n"]) - 1].as_ref().and_then(|w| w.upgrade());
                match c {
                    Some(c) => self.put(c, None),
                    None => json!(["none"]),
                }
            }
            "drop" => {
                let h = std::mem::replace(&mut self.hs[ju(&op["c"]) - 1], H::Gone);
                counted(|| drop(h));
                self.done()
            }
            "drops" => {
                let hs: Vec<H> = op["cs"].as_array().unwrap().iter().map(|i| std::mem::replace(&mut self.hs[ju(i) - 1], H::Gone)).collect();
                #[cfg(feature = "par")]
                {
                    let b = std::sync::Barrier::new(hs.len());
                    std::thread::scope(|s| {
                        for h in hs {
                            let b = &b;
                            s.spawn(move || {
                                b.wait();
                                counted(|| drop(h))
                            });
                        }
                    });
                }
                #[cfg(not(feature = "par"))]
                for h in hs {
                    counted(|| drop(h));
                }
                self.done()
            }
            "deep" => {
                let (how, n) = (js(&op["how"]).to_owned(), ju(&op["n"]));
                let before = total();
                // what a tree records stays in its own store
                let count = !how.starts_with("track") && how != "mixin";
                let h = how.clone();
                let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || if count { counted(|| deep(&h, n).len()) } else { deep(&h, n).len() }).unwrap().join().unwrap();
                let now = total();
                // the string is dropped by who did not make it
                let s = (now.0 - before.0, now.1 - before.1);
                json!(["ok", r, if count { s.0 } else { 0 }, if count { s.1 } else { 0 }])
            }
            "churn" => {
                let before = total();
                let r = counted(|| churn(js(&op["how"]), ju(&op["n"])));
                let now = total();
                json!(["ok", r, now.0 - before.0, now.1 - before.1])
            }
            x => json!(["tool", x]),
        }
    }
}

/// Executes the history on standard input, with a line for each result.
pub fn child() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Json = serde_json::from_str(&s).unwrap();
    let mut m = M { weak: jb(&v["cfg"]["weak"]), ..Default::default() };
    // what is allocated once
    let e = Cell::default();
    for how in ["dict", "boc", "errors", "slice"] {
        churn(how, 5);
    }
    drop(e);
    QUARANTINE.store(true, SeqCst);
    let out = std::io::stdout();
    for op in v["ev"].as_array().unwrap() {
        let r = m.run(op);
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
    std::process::exit(0);
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["child", "life"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut stdin = p.stdin.take().unwrap();
    let text = json!({"cfg": cfg, "ev": ops}).to_string();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let mut rs = Vec::new();
    for l in std::io::BufReader::new(p.stdout.take().unwrap()).lines() {
        rs.push(serde_json::from_str::<Json>(&l.unwrap()).unwrap());
    }
    w.join().unwrap();
    let st = p.wait().unwrap();
    let mut ev = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let mut op = op.clone();
        op["r"] = match rs.get(i) {
            Some(r) => r.clone(),
            None => json!(["died", format!("{st}")]),
        };
        ev.push(op);
        if i >= rs.len() {
            break;
        }
    }
    Trace { cfg: cfg.clone(), cells: vec![], ev }
}

#[derive(Clone)]
enum Kind {
    Cell(Vec<usize>),
    /// A view of a node.
    View(usize, u8),
    Blob,
}

/// Which handles there will be is known without executing anything.
pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let weak = r.flip();
    let mut ops: Vec<Json> = Vec::new();
    // nodes and handles: (live, node, kind of handle)
    let mut nodes: Vec<Kind> = Vec::new();
    let mut level: Vec<bool> = Vec::new();
    let mut hs: Vec<Option<usize>> = Vec::new();
    const HOWS: [&str; 21] = ["chain", "first", "last", "zigzag", "mixed", "ladder", "two", "comb", "held", "builder", "slice", "boc", "virt", "vread", "eq", "trackin", "virtin", "mixin", "tracked", "threads", "weak"];
    if seed % 40 == 0 {
        let n = if r.chance(3, 4) { r.range(20000, 65000) } else { r.range(1, 300) };
        ops.push(json!({"op": "deep", "how": HOWS[(seed / 40) as usize % HOWS.len()], "n": n}));
        return replay(&json!({"weak": false}), &ops);
    }
    for _ in 0..len {
        let live: Vec<usize> = (1..=hs.len()).filter(|&i| hs[i - 1].is_some()).collect();
        if live.len() < 2 || (live.len() < 12 && r.chance(2, 5)) {
            if r.chance(1, 10) {
                let mut v = "0000000100000001".to_owned();
                v += &r.bits(272);
                v.replace_range(272..288, "0000000000000001");
                ops.push(json!({"op": "cell", "x": 1, "v": v, "refs": []}));
                nodes.push(Kind::Cell(vec![]));
                level.push(true);
            } else if r.chance(1, 20) {
                let v = "00000010".to_owned() + &r.bits(256);
                ops.push(json!({"op": "cell", "x": 1, "v": v, "refs": []}));
                nodes.push(Kind::Cell(vec![]));
                level.push(false);
            } else {
                let k = if live.is_empty() { 0 } else { r.below(5) };
                let near = r.flip();
                let refs: Vec<usize> = (0..k).map(|_| if near { live[live.len() - 1 - r.below(live.len().min(3))] } else { *r.pick(&live) }).collect();
                let kids: Vec<usize> = refs.iter().map(|&h| hs[h - 1].unwrap()).collect();
                let n = *r.pick(&[0, 0, 1, 7, 8, 9, 64, 65, 127, 128, 200, 256, 257, 500, 512, 513, 1023]);
                ops.push(json!({"op": "cell", "x": 0, "v": r.bits(n), "refs": refs}));
                level.push(kids.iter().any(|&x| level[x]));
                nodes.push(Kind::Cell(kids));
            }
            hs.push(Some(nodes.len() - 1));
            continue;
        }
        let c = *r.pick(&live);
        let n = hs[c - 1].unwrap();
        match r.below(20) {
            0 | 1 => {
                ops.push(json!({"op": "clone", "c": c}));
                hs.push(Some(n));
            }
            2 => {
                ops.push(json!({"op": "parts", "c": c}));
                hs.push(Some(n));
            }
            3..=6 => match nodes[n].clone() {
                Kind::Cell(kids) if !kids.is_empty() => {
                    let i = r.below(kids.len());
                    let plain = !matches!(nodes[kids[i]], Kind::View(..));
                    if plain {
                        ops.push(json!({"op": "child", "c": c, "i": i + 1, "slice": r.flip(), "plain": true}));
                        hs.push(Some(kids[i]));
                    }
                }
                Kind::View(of, what) => {
                    if let Kind::Cell(kids) = nodes[of].clone() {
                        if !kids.is_empty() {
                            let i = r.below(kids.len());
                            ops.push(json!({"op": "child", "c": c, "i": i + 1, "slice": r.flip(), "plain": false}));
                            if matches!(nodes[kids[i]], Kind::Cell(_)) {
                                nodes.push(Kind::View(kids[i], what));
                                level.push(level[kids[i]]);
                                hs.push(Some(nodes.len() - 1));
                            } else {
                                ops.pop();
                            }
                        }
                    }
                }
                _ => {}
            },
            7 if matches!(nodes[n], Kind::Cell(_)) && level[n] => {
                ops.push(json!({"op": "virt", "c": c}));
                nodes.push(Kind::View(n, 1));
                level.push(level[n]);
                hs.push(Some(nodes.len() - 1));
            }
            8 | 9 if weak && matches!(nodes[n], Kind::Cell(_)) => {
                ops.push(json!({"op": "track", "c": c}));
                nodes.push(Kind::View(n, 2));
                level.push(level[n]);
                hs.push(Some(nodes.len() - 1));
            }
            10 if weak => {
                if let Kind::View(of, 2) = nodes[n] {
                    ops.push(json!({"op": "untrack", "c": c}));
                    hs[c - 1] = None;
                    hs.push(Some(of));
                }
            }
            11 if !weak && matches!(nodes[n], Kind::Cell(_)) => {
                ops.push(json!({"op": "boc", "c": c}));
                nodes.push(Kind::Blob);
                level.push(level[n]);
                hs.push(Some(nodes.len() - 1));
            }
            11 if weak => {
                let n = r.below(nodes.len());
                if let Kind::Cell(_) = nodes[n] {
                    ops.push(json!({"op": "up", "n": n + 1}));
                    let mut todo: Vec<usize> = hs.iter().flatten().cloned().collect();
                    let mut alive = vec![false; nodes.len()];
                    while let Some(x) = todo.pop() {
                        if !std::mem::replace(&mut alive[x], true) {
                            match &nodes[x] {
                                Kind::Cell(k) => todo.extend(k),
                                Kind::View(k, _) => todo.push(*k),
                                Kind::Blob => {}
                            }
                        }
                    }
                    if alive[n] {
                        hs.push(Some(n));
                    }
                }
            }
            12 if !weak => {
                ops.push(json!({"op": "churn", "how": *r.pick(&["dict", "boc", "errors", "slice"]), "n": r.range(1, 12)}));
            }
            13 | 14 if live.len() > 3 => {
                let mut cs = live.clone();
                for i in (1..cs.len()).rev() {
                    cs.swap(i, r.below(i + 1));
                }
                cs.truncate(r.range(2, 4));
                for &x in &cs {
                    hs[x - 1] = None;
                }
                ops.push(json!({"op": "drops", "cs": cs}));
            }
            _ => {
                ops.push(json!({"op": "drop", "c": c}));
                hs[c - 1] = None;
            }
        }
    }
    for i in 1..=hs.len() {
        if hs[i - 1].is_some() {
            ops.push(json!({"op": "drop", "c": i}));
        }
    }
    replay(&json!({"weak": weak}), &ops)
}
