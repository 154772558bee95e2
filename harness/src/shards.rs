//! Shard identifiers, block ids and tables of shards.
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
    last: usize,
}

fn w32(v: &Json) -> i32 {
    bits_u64(js(v)) as u32 as i32
}
fn b32(v: u32) -> String {
    u128_bits(v as u128, 32)
}
fn b64(v: u64) -> String {
    u128_bits(v as u128, 64)
}
fn id(v: &Json) -> ShardIdent {
    ShardIdent::new(w32(&v[0]), bits_u64(js(&v[1]))).expect("a valid shard")
}
fn two(s: ShardIdent) -> Vec<Json> {
    vec![json!(b32(s.workchain() as u32)), json!(b64(s.prefix()))]
}
fn of(s: ShardIdent) -> Vec<Json> {
    let mut v = two(s);
    v.push(json!(s.to_string()));
    let c = CellBuilder::build_from(s).unwrap();
    v.push(json!(cell_bits(c.as_ref())));
    v
}
fn ok(v: Vec<Json>) -> Json {
    let mut r = vec![json!("ok")];
    r.extend(v);
    Json::Array(r)
}
fn opt(s: Option<ShardIdent>) -> Json {
    Json::Array(s.map(two).unwrap_or_default())
}
fn bytes32(v: &Json) -> HashBytes {
    HashBytes(unhex(js(v)).try_into().unwrap())
}

impl M {
    fn cur(&mut self, c: &CurrencyCollection) -> [Json; 2] {
        [json!(u128_bits(c.tokens.into_inner(), 120)), json!(self.it.opt(c.other.as_dict().root()))]
    }
    fn descr(&mut self, d: &ShardDescription) -> Json {
        let flags: String = [d.before_split, d.before_merge, d.want_split, d.want_merge, d.nx_cc_updated].iter().map(|b| if *b { '1' } else { '0' }).collect();
        let sm = match d.split_merge_at {
            None => String::new(),
            Some(FutureSplitMerge::Split { split_utime, interval }) => format!("0{}{}", b32(split_utime), b32(interval)),
            Some(FutureSplitMerge::Merge { merge_utime, interval }) => format!("1{}{}", b32(merge_utime), b32(interval)),
        };
        let [f, fx] = self.cur(&d.fees_collected);
        let [m, mx] = self.cur(&d.funds_created);
        json!([
            b32(d.seqno), b32(d.reg_mc_seqno), b64(d.start_lt), b64(d.end_lt), hex(&d.root_hash.0), hex(&d.file_hash.0), flags,
            b32(d.next_catchain_seqno), b64(d.next_validator_shard), b32(d.min_ref_mc_seqno), b32(d.gen_utime), sm, f, fx, m, mx
        ])
    }
    fn make_descr(&self, v: &Json) -> ShardDescription {
        let n = |i: usize| bits_u64(js(&v[i]));
        let f = |i: usize| js(&v[6]).as_bytes()[i] == b'1';
        let sm = js(&v[11]);
        let cur = |a: usize| {
            let mut c = CurrencyCollection::new(bits_u128(js(&v[a])));
            if ju(&v[a + 1]) != 0 {
                let root = self.it.get(ju(&v[a + 1]));
                c.other = ExtraCurrencyCollection::from_raw(Some(root));
            }
            c
        };
        ShardDescription {
            seqno: n(0) as u32,
            reg_mc_seqno: n(1) as u32,
            start_lt: n(2),
            end_lt: n(3),
            root_hash: bytes32(&v[4]),
            file_hash: bytes32(&v[5]),
            before_split: f(0),
            before_merge: f(1),
            want_split: f(2),
            want_merge: f(3),
            nx_cc_updated: f(4),
            next_catchain_seqno: n(7) as u32,
            next_validator_shard: n(8),
            min_ref_mc_seqno: n(9) as u32,
            gen_utime: n(10) as u32,
            split_merge_at: if sm.is_empty() {
                None
            } else {
                let (a, b) = (bits_u64(&sm[1..33]) as u32, bits_u64(&sm[33..]) as u32);
                Some(if sm.starts_with('0') {
                    FutureSplitMerge::Split { split_utime: a, interval: b }
                } else {
                    FutureSplitMerge::Merge { merge_utime: a, interval: b }
                })
            },
            fees_collected: cur(12),
            funds_created: cur(14),
        }
    }
    fn read(&mut self, dict: &ShardHashes, op: &Json) -> Json {
        const E: fn() -> Json = || json!(["err"]);
        // more than there can be means that the iterator does not end
        let max = 20_000;
        let raw: Vec<_> = dict.raw_iter().take(max).collect();
        let typed: Vec<_> = dict.iter().take(max).collect();
        let latest: Vec<_> = dict.latest_blocks().take(max).collect();
        let mut out = vec![
            self.raws(raw),
            self.typeds(typed),
            Self::blocks(latest),
        ];
        let mut ones = Vec::new();
        for w in op["wcs"].as_array().unwrap() {
            let wc = w32(w);
            let has = dict.contains_workchain::<i32>(wc);
            ones.push(match dict.get_workchain_shards(wc) {
                Err(_) => E(),
                Ok(None) => {
                    if has != Ok(false) {
                        return json!(["differs", "contains_workchain"]);
                    }
                    json!(["none"])
                }
                Ok(Some(s)) => {
                    if has != Ok(true) || s.workchain() != wc {
                        return json!(["differs", "contains_workchain"]);
                    }
                    let root = s.root().repr_hash().to_owned();
                    let cell: Cell = s.clone().into();
                    if cell.repr_hash() != &root || s.clone().into_root() != cell {
                        return json!(["differs", "root"]);
                    }
                    let raw: Vec<_> = s.raw_iter().take(max).collect();
                    let keys: Vec<_> = s.keys().take(max).map(|k| k.map_or_else(|_| E(), |k| Json::Array(two(k)))).collect();
                    let values: Vec<_> = s.raw_values().take(max).collect();
                    let values: Vec<_> = values.into_iter().map(|v| v.map_or_else(|_| E(), |v| self.it.slice(&v))).collect();
                    let typed: Vec<_> = s.iter().take(max).collect();
                    let latest: Vec<_> = s.latest_blocks().take(max).collect();
                    json!([self.it.add(&cell), self.raws(raw), keys, values, self.typeds(typed), Self::blocks(latest)])
                }
            });
        }
        out.push(json!(ones));
        ok(out)
    }
    fn raws(&mut self, v: Vec<Result<(ShardIdent, CellSlice<'_>), tycho_types::error::Error>>) -> Json {
        v.into_iter()
            .map(|x| match x {
                Ok((k, v)) => {
                    let v = self.it.slice(&v);
                    json!([b32(k.workchain() as u32), b64(k.prefix()), v[0], v[1]])
                }
                Err(_) => json!(["err"]),
            })
            .collect()
    }
    fn typeds(&mut self, v: Vec<Result<(ShardIdent, ShardDescription), tycho_types::error::Error>>) -> Json {
        v.into_iter()
            .map(|x| match x {
                Ok((k, v)) => json!([b32(k.workchain() as u32), b64(k.prefix()), self.descr(&v)]),
                Err(_) => json!(["err"]),
            })
            .collect()
    }
    fn blocks(v: Vec<Result<BlockId, tycho_types::error::Error>>) -> Json {
        v.into_iter()
            .map(|x| match x {
                Ok(b) => json!([b32(b.shard.workchain() as u32), b64(b.shard.prefix()), b32(b.seqno), hex(&b.root_hash.0), hex(&b.file_hash.0)]),
                Err(_) => json!(["err"]),
            })
            .collect()
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "new" => match ShardIdent::new(w32(&op["w"]), bits_u64(js(&op["u"]))) {
                Some(s) => {
                    if bits_u64(js(&op["u"])) == 1 << 63 && s != ShardIdent::new_full(w32(&op["w"])) {
                        return json!(["differs", "new_full"]);
                    }
                    ok(of(s))
                }
                None => json!(["none"]),
            },
            "load" => {
                let mut b = CellBuilder::new();
                store_bits(&mut b, js(&op["v"])).unwrap();
                let c = b.build().unwrap();
                let mut s = c.as_slice().unwrap();
                match ShardIdent::load_from(&mut s) {
                    Ok(x) => {
                        let mut v = of(x);
                        v.push(json!(s.size_bits()));
                        ok(v)
                    }
                    Err(e) => err(&e),
                }
            }
            "parse" => {
                let t = js(&op["v"]);
                let r = t.parse::<ShardIdent>();
                let q: Result<ShardIdent, _> = serde_json::from_value(json!(t));
                match (r, q) {
                    (Ok(a), Ok(b)) if a == b => {
                        if serde_json::to_value(a).unwrap() != json!(a.to_string()) {
                            return json!(["differs", "serde"]);
                        }
                        ok(of(a))
                    }
                    (Err(e), Err(_)) => json!(["err", format!("{e:?}")]),
                    _ => json!(["differs", "serde"]),
                }
            }
            "parseid" => match js(&op["v"]).parse::<BlockId>() {
                Ok(b) => {
                    let mut v = two(b.shard);
                    v.extend([json!(b32(b.seqno)), json!(hex(&b.root_hash.0)), json!(hex(&b.file_hash.0)), json!(b.to_string())]);
                    if b.as_short_id().to_string() != format!("{}:{}", b.shard, b.seqno) || b.is_masterchain() != b.shard.is_masterchain() {
                        return json!(["differs", "short id"]);
                    }
                    let c = CellBuilder::build_from(b).unwrap();
                    if c.bit_len() != BlockId::BITS || c.parse::<BlockId>() != Ok(b) {
                        return json!(["differs", "stored"]);
                    }
                    ok(v)
                }
                Err(e) => json!(["err", format!("{e:?}")]),
            },
            "ask" => {
                let (a, b) = (id(&op["a"]), id(&op["b"]));
                let acc = HashBytes(bits_to_bytes(js(&op["acc"])).try_into().unwrap());
                let aw = w32(&op["aw"]);
                let var = VarAddr { anycast: None, address_len: Uint9::new(256), workchain: aw, address: acc.0.to_vec() };
                let holds = a.contains_address(&IntAddr::Var(var.clone()));
                if holds != a.contains_address(&var) {
                    return json!(["differs", "contains_address"]);
                }
                if let Ok(w) = i8::try_from(aw) {
                    let std = StdAddr::new(w, acc);
                    if holds != a.contains_address(&std) || holds != a.contains_address(&IntAddr::Std(std)) {
                        return json!(["differs", "contains_address"]);
                    }
                }
                let sp = match a.split() {
                    Some((l, r)) => {
                        let mut v = two(l);
                        v.extend(two(r));
                        v
                    }
                    None => vec![],
                };
                json!([
                    "ok", a.prefix_len(), a.is_full(), a.is_left_child(), a.is_right_child(), a.is_masterchain(), a.can_split(), opt(a.merge()), sp,
                    opt(a.opposite()), a.is_ancestor_of(&b), a.is_parent_of(&b), a.is_child_of(&b), a.intersects(&b), a.contains_account(&acc), holds,
                    a.cmp(&b) as i32, a == b
                ])
            }
            "addr" => {
                let v = js(&op["v"]);
                let var = VarAddr { anycast: None, address_len: Uint9::new(v.len() as u16), workchain: w32(&op["w"]), address: bits_to_bytes(v) };
                let a = id(&op["a"]);
                let holds = a.contains_address(&var);
                if holds != a.contains_address(&IntAddr::Var(var.clone())) {
                    return json!(["differs", "contains_address"]);
                }
                json!(["ok", holds, b64(var.prefix()), var.is_masterchain()])
            }
            "short" => {
                let s = BlockIdShort::from((id(&op["a"]), bits_u64(js(&op["n"])) as u32));
                let d = bits_u64(js(&op["d"])) as u32;
                let all = [s.saturating_add(d), s.saturating_sub(d), s.saturating_next(), s.saturating_prev()];
                if all.iter().any(|x| x.shard != s.shard) || s.is_masterchain() != s.shard.is_masterchain() {
                    return json!(["differs", "shard"]);
                }
                json!(["ok", b32(all[0].seqno), b32(all[1].seqno), b32(all[2].seqno), b32(all[3].seqno), s.to_string()])
            }
            "mk" => {
                let mut b = CellBuilder::new();
                if store_bits(&mut b, js(&op["v"])).is_err() {
                    return json!(["err", "bits"]);
                }
                for r in op["refs"].as_array().unwrap() {
                    b.store_reference(self.it.get(ju(r))).unwrap();
                }
                b.set_exotic(ju(&op["x"]) == 1);
                match b.build() {
                    Ok(c) => json!(["ok", self.it.add(&c)]),
                    Err(e) => err(&e),
                }
            }
            "wrap" => {
                let mut d = Dict::<i32, Cell>::new();
                for e in op["list"].as_array().unwrap() {
                    d.set(w32(&e[0]), self.it.get(ju(&e[1]))).unwrap();
                }
                json!(["ok", self.it.opt(d.root())])
            }
            "build" => {
                let ds: Vec<_> = op["ds"].as_array().unwrap().iter().map(|d| self.make_descr(d)).collect();
                let ids: Vec<_> = op["list"].as_array().unwrap().iter().map(|x| (id(x), ju(&x[2]) - 1)).collect();
                match ShardHashes::from_shards(ids.iter().map(|(s, d)| (s, &ds[*d]))) {
                    Ok(s) => {
                        let i = self.it.opt(s.as_dict().root());
                        self.last = i;
                        json!(["ok", i])
                    }
                    Err(e) => err(&e),
                }
            }
            "read" => {
                // -1: what was built last
                let i = op["root"].as_u64().map_or(self.last, |i| i as usize);
                let root = if i == 0 { None } else { Some(self.it.get(i)) };
                let h = ShardHashes::from_dict(Dict::from_raw(root.clone()));
                // also as stored
                let c = CellBuilder::build_from(&h).unwrap();
                if c.parse::<ShardHashes>() != Ok(h.clone()) || h.clone().into_dict().root() != &root {
                    return json!(["differs", "stored"]);
                }
                self.read(&h, op)
            }
            _ => json!(["tool", "unknown operation"]),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

struct Gen {
    r: Rng,
    m: M,
    ev: Vec<Json>,
}
fn raw(p: &str) -> String {
    format!("{p}1{}", "0".repeat(63 - p.len()))
}
impl Gen {
    fn go(&mut self, mut op: Json) -> Json {
        let r = self.m.run(&op);
        op["r"] = r.clone();
        self.ev.push(op);
        r
    }
    fn path(&mut self) -> String {
        let n = match self.r.below(4) {
            0 => self.r.below(5),
            1 => 60 - self.r.below(4),
            2 => 8 * self.r.below(8) + self.r.below(3),
            _ => self.r.below(61),
        };
        self.r.mixed_bits(n.min(60))
    }
    fn near(&mut self, p: &str) -> String {
        let mut q = p.to_owned();
        match self.r.below(6) {
            0 => {
                let k = self.r.below(q.len() + 1);
                q.truncate(k);
            }
            1 => {
                let k = self.r.below(61 - q.len());
                q += &self.r.bits(k);
            }
            2 if !q.is_empty() => {
                let k = self.r.below(q.len());
                let c = if q.as_bytes()[k] == b'0' { "1" } else { "0" };
                q.replace_range(k..k + 1, c);
            }
            3 if !q.is_empty() => {
                q.pop();
            }
            4 if !q.is_empty() => {
                let c = q.pop().unwrap();
                q.push(if c == '0' { '1' } else { '0' });
            }
            _ => return self.path(),
        }
        q
    }
    fn wc(&mut self) -> String {
        match self.r.below(5) {
            0 => b32(0),
            1 => b32(u32::MAX),
            2 => b32(1),
            3 => b32((self.r.below(512) as u32).wrapping_sub(256)),
            _ => self.r.bits(32),
        }
    }
    fn plain_wc(&mut self) -> String {
        loop {
            let w = self.wc();
            if w.contains('0') {
                return w;
            }
        }
    }
    fn ident(&mut self) -> Json {
        let w = self.wc();
        let p = if w.contains('0') { self.path() } else { String::new() };
        json!([w, raw(&p)])
    }
    fn text(&mut self, s: String) -> String {
        // something near the text
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..self.r.range(1, 2) {
            let k = self.r.below(c.len() + 1);
            let new = *self.r.pick(&['0', '8', 'f', 'F', 'g', ':', '-', '+', ' ', '\u{e9}', '\u{1f600}', '1', 'x']);
            match self.r.below(4) {
                0 if k < c.len() => c[k] = new,
                1 if k < c.len() => {
                    c.remove(k);
                }
                2 => c.truncate(k),
                _ => c.insert(k, new),
            }
        }
        c.into_iter().collect()
    }
    fn number(&mut self, w: usize) -> String {
        match self.r.below(4) {
            0 => "0".repeat(w),
            1 => "1".repeat(w),
            2 => format!("{}1", "0".repeat(w - 1)),
            _ => self.r.bits(w),
        }
    }
    fn amount(&mut self) -> String {
        let n = *self.r.pick(&[0, 1, 7, 8, 9, 16, 64, 119, 120]);
        let v = self.r.bits(n);
        format!("{}{v}", "0".repeat(120 - n))
    }
    fn descr(&mut self) -> Json {
        let sm = if self.r.flip() { String::new() } else { self.r.bits(65) };
        let extra = |g: &mut Gen| {
            if g.r.chance(1, 4) && !g.m.it.cells.is_empty() { 1 + g.r.below(g.m.it.cells.len()) } else { 0 }
        };
        let (a, b) = (extra(self), extra(self));
        json!([
            self.number(32), self.number(32), self.number(64), self.number(64), hex(&self.r.hash()), hex(&self.r.hash()), self.r.bits(5),
            self.number(32), self.number(64), self.number(32), self.number(32), sm, self.amount(), a, self.amount(), b
        ])
    }
    /// The leaves of a random tree.
    fn leaves(&mut self, p: String, budget: &mut usize, deep: bool, out: &mut Vec<String>) {
        if p.len() < 60 && *budget > 0 && (deep || self.r.chance(2, 3)) {
            *budget -= 1;
            let side = self.r.flip();
            self.leaves(format!("{p}0"), budget, deep && side, out);
            self.leaves(format!("{p}1"), budget, deep && !side, out);
        } else {
            out.push(p);
        }
    }
}

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut g = Gen { r: Rng::new(seed), m: M::default(), ev: vec![] };
    if sel == "ids" {
        for _ in 0..len {
            let a = g.ident();
            match g.r.below(12) {
                11 => {
                    // an address of another length
                    let n = *g.r.pick(&[0, 1, 5, 8, 30, 55, 56, 57, 60, 63, 64, 65, 72, 256, 511]);
                    let mut v = js(&a[1])[..js(&a[1]).rfind('1').unwrap()].to_owned();
                    v += &g.r.mixed_bits(511 - v.len());
                    v.truncate(n);
                    let w = if g.r.chance(1, 5) { g.wc() } else { js(&a[0]).to_owned() };
                    g.go(json!({"op": "addr", "a": a, "v": v, "w": w}));
                }
                0 => {
                    let mut u = js(&a[1]).to_owned();
                    if g.r.flip() {
                        u = match g.r.below(4) { 0 => "0".repeat(64), 1 => g.r.bits(64), 2 => format!("{}1{}", g.r.bits(60), "000"), _ => format!("{}{}", "0".repeat(60), g.r.bits(4)) };
                    }
                    let w = g.wc();
                    g.go(json!({"op": "new", "w": w, "u": u}));
                }
                1 => {
                    let n = if g.r.flip() { g.r.below(61) } else { g.r.range(58, 70) };
                    let n = if g.r.chance(1, 8) { g.r.below(256) } else { n };
                    let mut v = u128_bits(n as u128, 8) + &g.wc() + &g.r.mixed_bits(64);
                    if g.r.chance(1, 4) {
                        let k = g.r.range(95, 104);
                        v.truncate(k);
                    } else if g.r.flip() {
                        v += &g.r.bits(5);
                    }
                    g.go(json!({"op": "load", "v": v}));
                }
                2 => {
                    let s = id(&a).to_string();
                    let s = match g.r.below(4) { 0 => s, 1 => s.to_uppercase(), 2 => format!("{s}:{}", g.r.below(30)), _ => g.text(s) };
                    g.go(json!({"op": "parse", "v": s}));
                }
                3 => {
                    let n = bits_u64(&g.number(32)) as u32;
                    let b = BlockId { shard: id(&a), seqno: n, root_hash: HashBytes(g.r.hash()), file_hash: HashBytes(g.r.hash()) };
                    let mut s = b.to_string();
                    if g.r.chance(2, 3) {
                        s = g.text(s);
                    }
                    if g.r.chance(1, 8) {
                        s = s.replace(&format!(":{n}:"), &format!(":{}:", n as u64 + (1 << 32)));
                    }
                    if g.r.chance(1, 8) {
                        s = s.to_uppercase();
                    }
                    g.go(json!({"op": "parseid", "v": s}));
                }
                4 => {
                    let (n, d) = (g.number(32), g.number(32));
                    g.go(json!({"op": "short", "a": a, "n": n, "d": d}));
                }
                _ => {
                    let (w, p) = (js(&a[0]).to_owned(), js(&a[1]).rsplit_once('1').unwrap().0.to_owned());
                    let b = if w.contains('0') && g.r.chance(9, 10) {
                        let v = if g.r.chance(1, 8) { g.plain_wc() } else { w.clone() };
                        let q = g.near(&p);
                        json!([v, raw(&q)])
                    } else {
                        g.ident()
                    };
                    let acc = if g.r.flip() { p.clone() } else { g.near(&p) };
                    let acc = format!("{acc}{}", g.r.mixed_bits(256 - acc.len()));
                    let aw = if g.r.chance(1, 5) { g.wc() } else { w };
                    g.go(json!({"op": "ask", "a": a, "b": b, "acc": acc, "aw": aw}));
                }
            }
        }
    } else {
        for _ in 0..len {
            let n = g.r.range(1, 3);
            let ds: Vec<Json> = (0..n).map(|_| g.descr()).collect();
            let mut list = Vec::new();
            let mut wcs = Vec::new();
            for _ in 0..[0, 1, 1, 1, 2, 3][g.r.below(6)] {
                let w = g.plain_wc();
                if wcs.contains(&w) {
                    continue;
                }
                wcs.push(w.clone());
                let mut leaves = Vec::new();
                let deep = g.r.chance(1, 6);
                let mut budget = if deep { g.r.range(50, 70) } else { g.r.below(8) };
                g.leaves(String::new(), &mut budget, deep, &mut leaves);
                if g.r.chance(1, 3) && !leaves.is_empty() {
                    // something is wrong
                    let k = g.r.below(leaves.len());
                    match g.r.below(5) {
                        0 => {
                            leaves.remove(k);
                        }
                        1 => leaves.push(leaves[k].clone()),
                        2 => {
                            let q = g.near(&leaves[k].clone());
                            leaves.push(q);
                        }
                        3 => {
                            let q = g.near(&leaves[k].clone());
                            leaves[k] = q;
                        }
                        _ => leaves.push(String::new()),
                    }
                }
                for p in leaves {
                    list.push(json!([w, raw(&p), 1 + g.r.below(n)]));
                }
            }
            if g.r.chance(1, 10) {
                list.push(json!([b32(u32::MAX), raw(""), 1]));
                wcs.push(b32(u32::MAX));
            }
            for i in (1..list.len()).rev() {
                let j = g.r.below(i + 1);
                list.swap(i, j);
            }
            let r = g.go(json!({"op": "build", "ds": ds, "list": list}));
            let other = g.wc();
            wcs.push(other);
            if r[0] == "ok" {
                g.go(json!({"op": "read", "root": r[1], "wcs": wcs}));
            }
            if g.m.it.cells.is_empty() {
                continue;
            }
            // damage
            for _ in 0..g.r.below(4) {
                let total = g.m.it.cells.len();
                let mut at = if r[0] == "ok" && ju(&r[1]) > 0 && g.r.flip() {
                    let mut i = ju(&r[1]);
                    let mut path = vec![];
                    // the way from a cell of the table up to its root is rebuilt
                    loop {
                        let refs: Vec<usize> = g.m.it.table[i - 1][2].as_array().unwrap().iter().map(ju).collect();
                        if refs.is_empty() || g.r.chance(1, 4) {
                            break;
                        }
                        let j = g.r.below(refs.len());
                        path.push((i, j));
                        i = refs[j];
                    }
                    (i, path)
                } else {
                    (1 + g.r.below(total), vec![])
                };
                let row = g.m.it.table[at.0 - 1].clone();
                let mut x = ju(&row[0]);
                let mut v = js(&row[1]).to_owned();
                let mut refs: Vec<usize> = row[2].as_array().unwrap().iter().map(ju).collect();
                match g.r.below(8) {
                    0 => {
                        x = 1;
                        v = format!("00000010{}", g.r.bits(256));
                        refs.clear();
                    }
                    1 => {
                        refs.pop();
                    }
                    2 => v = String::new(),
                    3 => {
                        let k = g.r.below(v.len() + 1);
                        v.truncate(k);
                    }
                    4 | 5 if !v.is_empty() => {
                        let most = if g.r.flip() { 6 } else { 1000 };
                        let k = g.r.below(v.len().min(most));
                        let c = if v.as_bytes()[k] == b'0' { "1" } else { "0" };
                        v.replace_range(k..k + 1, c);
                    }
                    6 if refs.len() < 4 => {
                        let k = g.r.below(refs.len() + 1);
                        refs.insert(k, 1 + g.r.below(total));
                    }
                    _ => {
                        if v.len() > 4 && v.starts_with("01010") && refs.len() == 1 {
                            // the other form of a description
                            let c = g.m.it.table[refs[0] - 1].clone();
                            let tail = js(&c[1]).to_owned();
                            v = format!("01011{}{tail}", &v[5..]);
                            refs = c[2].as_array().unwrap().iter().map(ju).collect();
                        } else if let Some(k) = refs.first().copied() {
                            refs[0] = refs[refs.len() - 1];
                            let l = refs.len() - 1;
                            refs[l] = k;
                        }
                    }
                }
                let mut c = g.go(json!({"op": "mk", "x": x, "v": v, "refs": refs}));
                while let Some((i, j)) = at.1.pop() {
                    if c[0] != "ok" {
                        break;
                    }
                    let row = g.m.it.table[i - 1].clone();
                    let mut refs: Vec<usize> = row[2].as_array().unwrap().iter().map(ju).collect();
                    refs[j] = ju(&c[1]);
                    c = g.go(json!({"op": "mk", "x": row[0], "v": row[1], "refs": refs}));
                }
                if c[0] != "ok" {
                    continue;
                }
                let root = if g.r.chance(1, 4) {
                    let mut list = vec![json!([wcs[0], c[1]])];
                    if g.r.flip() {
                        list.push(json!([g.plain_wc(), 1 + g.r.below(total)]));
                    }
                    g.go(json!({"op": "wrap", "list": list}))[1].clone()
                } else {
                    c[1].clone()
                };
                g.go(json!({"op": "read", "root": root, "wcs": wcs}));
            }
            if g.r.chance(1, 6) {
                // a tree that is too deep
                let mut c = json!(1 + g.r.below(g.m.it.cells.len()));
                let leaf = g.go(json!({"op": "mk", "x": 0, "v": "01010", "refs": []}))[1].clone();
                for _ in 0..g.r.range(57, 63) {
                    let k = g.r.below(4);
                    let refs = if k < 3 { json!([leaf, c]) } else { json!([c, leaf]) };
                    c = g.go(json!({"op": "mk", "x": 0, "v": "1", "refs": refs}))[1].clone();
                }
                let root = g.go(json!({"op": "wrap", "list": [[b32(0), c]]}))[1].clone();
                g.go(json!({"op": "read", "root": root, "wcs": [b32(0)]}));
            }
        }
    }
    Trace { cfg: json!({}), cells: std::mem::take(&mut g.m.it.table), ev: g.ev }
}
