//! Currency collections.
use std::collections::{BTreeMap, HashMap};

use tycho_types::cell::ExactSize;
use tycho_types::dict::AugDictExtra;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
    pool: Vec<CurrencyCollection>,
}

fn tok(s: &str) -> Tokens {
    Tokens::new(bits_u128(s))
}
fn big(s: &str) -> VarUint248 {
    let s = format!("{s:0>256}");
    VarUint248::from_words(bits_u128(&s[..128]), bits_u128(&s[128..]))
}
fn b248(v: VarUint248) -> String {
    let (h, l) = v.into_words();
    u128_bits(h, 128) + &u128_bits(l, 128)
}
type R<T> = Result<T, Json>;
fn e<T>(r: Result<T, tycho_types::error::Error>) -> R<T> {
    r.map_err(|x| err(&x))
}

fn sum<T: AugDictExtra + Store + PartialEq>(l: &T, r: &T) -> R<T>
where
    for<'a> T: Load<'a>,
{
    let cx = Cell::empty_context();
    let (lc, rc) = (e(CellBuilder::build_from(l))?, e(CellBuilder::build_from(r))?);
    let (mut ls, mut rs) = (lc.as_slice().unwrap(), rc.as_slice().unwrap());
    let mut b = CellBuilder::new();
    e(T::comp_add(&mut ls, &mut rs, &mut b, cx))?;
    if !ls.is_empty() || !rs.is_empty() {
        return Err(json!(["differs", "operands are not read to the end"]));
    }
    let c = b.build().unwrap();
    let mut s = c.as_slice().unwrap();
    let v = e(T::load_from(&mut s))?;
    if !s.is_empty() {
        return Err(json!(["differs", "more than a value"]));
    }
    Ok(v)
}

impl M {
    fn of(&mut self, c: &CurrencyCollection) -> Json {
        json!([u128_bits(c.tokens.into_inner(), 128), self.it.opt(c.other.as_dict().root())])
    }
    fn push(&mut self, c: CurrencyCollection) -> Json {
        let r = self.of(&c);
        self.pool.push(c);
        json!(["ok", r])
    }
    fn get(&self, v: &Json) -> CurrencyCollection {
        self.pool[ju(v) - 1].clone()
    }
    fn other(op: &Json) -> R<ExtraCurrencyCollection> {
        let pairs: Vec<(u32, VarUint248)> = op["pairs"].as_array().unwrap().iter().map(|p| (bits_u64(js(&p[0])) as u32, big(js(&p[1])))).collect();
        let tree = || pairs.iter().cloned().collect::<BTreeMap<u32, VarUint248>>();
        let hash = || pairs.iter().cloned().collect::<HashMap<u32, VarUint248>>();
        e(match js(&op["how"]) {
            "set" => {
                let mut d = ExtraCurrencyCollection::new();
                for (k, v) in &pairs {
                    e(d.as_dict_mut().set(*k, *v))?;
                }
                Ok(d)
            }
            "iter" => ExtraCurrencyCollection::try_from_iter(pairs.iter().cloned()),
            "btree" => tree().try_into(),
            "btreeref" => (&tree()).try_into(),
            "hash" => hash().try_into(),
            "hashref" => (&hash()).try_into(),
            _ => return Err(json!(["tool"])),
        })
    }
    fn arith(&mut self, op: &Json) -> R<CurrencyCollection> {
        let (a, b) = (self.get(&op["a"]), self.get(&op["b"]));
        let r = match js(&op["o"]) {
            "add" => a.checked_add(&b),
            "sub" => a.checked_sub(&b),
            "clamp" => a.checked_clamp(&b),
            _ => return Err(json!(["tool"])),
        };
        let mut x = a.clone();
        let done = match js(&op["o"]) {
            "add" => x.try_add_assign(&b),
            "sub" => x.try_sub_assign(&b),
            _ => return e(r),
        };
        if done.is_err() && x != a {
            return Err(json!(["differs", "a failed assignment has an effect"]));
        }
        if done.is_ok() != r.is_ok() || r.as_ref().is_ok_and(|r| *r != x) {
            return Err(json!(["differs", "assignment"]));
        }
        if js(&op["o"]) == "add" && a.tokens.is_valid() && b.tokens.is_valid() {
            let s = sum(&a, &b);
            if s.is_ok() != r.is_ok() || s.is_ok_and(|s| s != x) {
                return Err(json!(["differs", "augmentation"]));
            }
        }
        e(r)
    }
    fn look(&mut self, op: &Json) -> R<Json> {
        let c = self.get(&op["a"]);
        let cell = e(CellBuilder::build_from(&c))?;
        let size = c.exact_size();
        if c.bit_len() != size.bits {
            return Err(json!(["differs", "bit_len"]));
        }
        let mut list = Vec::new();
        for x in c.other.as_dict().iter() {
            let (k, v) = e(x)?;
            if e(c.other.as_dict().get(k))? != Some(v) {
                return Err(json!(["differs", "get"]));
            }
            list.push(json!([u128_bits(k as u128, 32), b248(v)]));
        }
        let j = serde_json::to_string(&c).map_err(|x| json!(["differs", x.to_string()]))?;
        let x = serde_json::from_str::<CurrencyCollection>(&j).map_err(|x| json!(["differs", x.to_string()]))?;
        if x != c {
            return Err(json!(["differs", "json"]));
        }
        if cell.reference(0).map(|c| c.repr_hash()) != c.other.as_dict().root().as_ref().map(|c| c.repr_hash()) || cell.reference_count() != size.refs {
            return Err(json!(["differs", "reference"]));
        }
        if c.other.is_empty() != list.is_empty() || c.clone().other.into_dict().is_empty() != list.is_empty() {
            return Err(json!(["differs", "empty"]));
        }
        Ok(json!(["ok", c.is_zero(), size.bits, size.refs, cell_bits(cell.as_ref()), list]))
    }
    fn load(&mut self, op: &Json) -> R<Json> {
        let c = self.get(&op["a"]);
        let mut b = CellBuilder::new();
        e(c.store_into(&mut b, Cell::empty_context()))?;
        let more = ju(&op["more"]);
        b.store_zeros(more as u16).unwrap();
        b.store_reference(Cell::empty_cell()).unwrap();
        let cell = b.build().unwrap();
        let mut s = cell.as_slice().unwrap();
        if ju(&op["cut"]) > 0 {
            let n = s.size_bits() - ju(&op["cut"]) as u16;
            s = s.get_prefix(n.min(c.bit_len() - 1), 1);
        }
        let x = e(CurrencyCollection::load_from(&mut s))?;
        Ok(json!(["ok", self.of(&x), [s.size_bits(), s.size_refs()]]))
    }
    fn sum(&mut self, op: &Json) -> R<Json> {
        let l = |m: &Self, k: usize| m.get(&op["l"][k]);
        let r = |m: &Self, k: usize| m.get(&op["r2"][k]);
        let x = |k: usize| js(&op["x"][k]).to_string();
        match js(&op["kind"]) {
            "created" => {
                let a = ShardFeeCreated { fees: l(self, 0), create: l(self, 1) };
                let b = ShardFeeCreated { fees: r(self, 0), create: r(self, 1) };
                let s = sum(&a, &b)?;
                Ok(json!(["ok", self.of(&s.fees), self.of(&s.create)]))
            }
            "import" => {
                let a = ImportFees { fees_collected: tok(&x(0)), value_imported: l(self, 0) };
                let b = ImportFees { fees_collected: tok(&x(1)), value_imported: r(self, 0) };
                let s = sum(&a, &b)?;
                Ok(json!(["ok", self.of(&s.value_imported), u128_bits(s.fees_collected.into_inner(), 128)]))
            }
            "depth" => {
                let a = DepthBalanceInfo { split_depth: bits_u64(&x(0)) as u8, balance: l(self, 0) };
                let b = DepthBalanceInfo { split_depth: bits_u64(&x(1)) as u8, balance: r(self, 0) };
                let s = sum(&a, &b)?;
                Ok(json!(["ok", self.of(&s.balance), u128_bits(s.split_depth as u128, 5)]))
            }
            _ => Err(json!(["tool"])),
        }
    }
    fn go(&mut self, op: &Json) -> R<Json> {
        Ok(match js(&op["op"]) {
            "make" => {
                let c = CurrencyCollection { tokens: tok(js(&op["tok"])), other: Self::other(op)? };
                if c.other.is_empty() && (CurrencyCollection::from(c.tokens) != c || CurrencyCollection::new(c.tokens.into_inner()) != c) {
                    return Err(json!(["differs", "constructor"]));
                }
                self.push(c)
            }
            "do" => {
                let c = self.arith(op)?;
                self.push(c)
            }
            "tokens" => {
                let a = self.get(&op["a"]);
                let mut x = a.clone();
                let n = tok(js(&op["n"]));
                let r = if js(&op["o"]) == "add" { x.try_add_assign_tokens(n) } else { x.try_sub_assign_tokens(n) };
                if r.is_err() && x != a {
                    return Err(json!(["differs", "a failed assignment has an effect"]));
                }
                e(r)?;
                self.push(x)
            }
            "norm" => {
                let mut a = self.get(&op["a"]);
                let n = e(a.other.normalized())?;
                e(a.other.normalize())?;
                if a.other != n {
                    return Err(json!(["differs", "normalize"]));
                }
                self.push(a)
            }
            "same" => json!(["ok", self.get(&op["a"]) == self.get(&op["b"])]),
            "look" => self.look(op)?,
            "load" => self.load(op)?,
            "sum" => self.sum(op)?,
            _ => json!(["tool"]),
        })
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        self.go(op).unwrap_or_else(|x| x)
    }
}

fn amount(r: &mut Rng, w: usize, max: usize) -> String {
    let v = match r.below(8) {
        0 => String::new(),
        1 => "1".into(),
        2 => "1".repeat(max),
        3 => "1".repeat(max - 1) + "0",
        4 => {
            let k = r.below(max);
            let one = r.bits(3.min(k));
            format!("1{}{}", "0".repeat(k - one.len()), one)
        }
        5 => {
            let k = r.below(max + 1);
            "1".repeat(k)
        }
        _ => {
            let k = r.below(max + 1);
            r.bits(k)
        }
    };
    format!("{v:0>w$}")
}

pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev: Vec<Json> = Vec::new();
    let base = r.bits(32);
    let ids: Vec<String> = (0..r.range(1, 8))
        .map(|k| match r.below(4) {
            0 => u128_bits(k as u128, 32),
            1 => u128_bits((1u128 << 32) - 1 - k as u128, 32),
            2 => {
                let n = r.below(33);
                format!("{}{}", &base[..n], r.bits(32 - n))
            }
            _ => r.bits(32),
        })
        .collect();
    while ev.len() < len {
        let n = m.pool.len();
        let p = |r: &mut Rng| if r.flip() { n - r.below(n.min(4)) } else { 1 + r.below(n) };
        let mut op = match if n < 3 { 0 } else { r.below(14) } {
            0 | 1 => {
                let how = *r.pick(&["set", "iter", "btree", "btreeref", "hash", "hashref"]);
                let mut pairs: Vec<(String, String)> = Vec::new();
                let bad = r.chance(1, 12);
                for _ in 0..r.below(7) {
                    let id = r.pick(&ids).clone();
                    if how == "iter" && pairs.iter().any(|x| x.0 == id) {
                        continue;
                    }
                    let v = if bad && r.chance(1, 3) { amount(&mut r, 256, 256) } else { amount(&mut r, 256, 248) };
                    pairs.push((id, v));
                }
                if how != "set" && pairs.iter().any(|p| p.1[..8].contains('1')) && pairs.iter().enumerate().any(|(i, x)| pairs[..i].iter().any(|y| y.0 == x.0)) {
                    continue;
                }
                let t = if r.chance(1, 30) { amount(&mut r, 128, 128) } else { amount(&mut r, 128, 120) };
                json!({"op": "make", "how": how, "tok": t, "pairs": pairs})
            }
            2..=7 => {
                let o = *r.pick(&["add", "add", "sub", "sub", "clamp"]);
                json!({"op": "do", "o": o, "a": p(&mut r), "b": p(&mut r)})
            }
            8 => {
                let a = p(&mut r);
                let t = m.pool[a - 1].tokens.into_inner();
                let max = (1u128 << 120) - 1;
                let n = match r.below(4) {
                    0 => u128_bits(max.saturating_sub(t) + r.below(2) as u128, 128),
                    1 => u128_bits(t.saturating_add(r.below(2) as u128), 128),
                    _ => amount(&mut r, 128, 120),
                };
                json!({"op": "tokens", "o": *r.pick(&["add", "sub"]), "a": a, "n": n})
            }
            9 => json!({"op": "norm", "a": p(&mut r)}),
            10 => json!({"op": "same", "a": p(&mut r), "b": p(&mut r)}),
            11 => json!({"op": "look", "a": p(&mut r)}),
            12 => {
                let cut = if r.chance(1, 3) { 1 + r.below(2) } else { 0 };
                json!({"op": "load", "a": p(&mut r), "more": r.below(40), "cut": cut})
            }
            _ => {
                let kind = *r.pick(&["created", "import", "depth"]);
                let l = [p(&mut r), p(&mut r)];
                let r2 = [p(&mut r), p(&mut r)];
                if l.iter().chain(&r2).any(|x| !m.pool[x - 1].tokens.is_valid()) {
                    continue;
                }
                let x = if kind == "depth" {
                    [0; 2].map(|_| u128_bits(r.below(31) as u128, 5))
                } else {
                    [0; 2].map(|_| amount(&mut r, 128, 120))
                };
                json!({"op": "sum", "kind": kind, "l": l, "r2": r2, "x": x})
            }
        };
        op["r"] = m.run(&op);
        ev.push(op);
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
