//! Dictionaries: every public layer of the API, one operation at a time.
use std::collections::BTreeMap;

use tycho_types::cell::{CellDataBuilder, CellSliceParts, Load, Store};
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::{ShardIdentFull, StdAddr};
use tycho_types::prelude::*;

use crate::util::*;

/// Bit string keys of a fixed length, ordered lexicographically.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct RK<const N: u16>(String);
impl<const N: u16> DictKey for RK<N> {
    const BITS: u16 = N;
}
impl<const N: u16> StoreDictKey for RK<N> {
    fn store_into_data(&self, data: &mut CellDataBuilder) -> Result<(), Error> {
        for c in self.0.bytes() {
            data.store_bit(c == b'1')?;
        }
        Ok(())
    }
}

/// A value that takes everything that is left.
#[derive(Clone)]
pub struct Blob(pub Cell);
impl Store for Blob {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        b.store_slice(self.0.as_slice_allow_exotic())
    }
}
impl<'a> Load<'a> for Blob {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        let mut b = CellBuilder::new();
        b.store_slice(s.load_remaining())?;
        Ok(Blob(b.build()?))
    }
}

/// Extra data whose combination is neither commutative nor associative; odd ones own a reference too.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct X16(pub u16);
impl Store for X16 {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
        b.store_u16(self.0)?;
        if self.0 & 1 == 1 {
            let mut c = CellBuilder::new();
            c.store_u16(!self.0)?;
            b.store_reference(c.build()?)?;
        }
        Ok(())
    }
}
impl<'a> Load<'a> for X16 {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        let v = s.load_u16()?;
        if v & 1 == 1 && s.load_reference_as_slice()?.load_u16()? != !v {
            return Err(Error::InvalidData);
        }
        Ok(X16(v))
    }
}
impl AugDictExtra for X16 {
    fn comp_add(l: &mut CellSlice, r: &mut CellSlice, b: &mut CellBuilder, c: &dyn CellContext) -> Result<(), Error> {
        let (l, r) = (X16::load_from(l)?.0 as u32, X16::load_from(r)?.0 as u32);
        X16(((l * 3 + r * 5 + 1) % 65536) as u16).store_into(b, c)
    }
}

/// Typed keys, converted to and from their bits independently of the crate.
trait TK: StoreDictKey + LoadDictKey + Clone {
    fn of(s: &str) -> Self;
    fn bits(&self) -> String;
}
macro_rules! int_tk {
    ($($t:ty => $w:expr),*) => {$(
        impl TK for $t {
            fn of(s: &str) -> Self { bits_u128(s) as $t }
            fn bits(&self) -> String { u128_bits(*self as u128, $w) }
        }
    )*};
}
int_tk!(u8 => 8, i8 => 8, u16 => 16, i16 => 16, u32 => 32, i32 => 32, u64 => 64, i64 => 64, u128 => 128, i128 => 128);
impl TK for bool {
    fn of(s: &str) -> Self {
        s == "1"
    }
    fn bits(&self) -> String {
        if *self { "1".into() } else { "0".into() }
    }
}
macro_rules! arr_tk {
    ($($n:literal),*) => {$(
        impl TK for [u8; $n] {
            fn of(s: &str) -> Self { bits_to_bytes(s).try_into().unwrap() }
            fn bits(&self) -> String { bytes_to_bits(self, $n * 8) }
        }
    )*};
}
arr_tk!(16, 20, 32);
impl TK for HashBytes {
    fn of(s: &str) -> Self {
        HashBytes(bits_to_bytes(s).try_into().unwrap())
    }
    fn bits(&self) -> String {
        bytes_to_bits(&self.0, 256)
    }
}
impl TK for (u64, u32) {
    fn of(s: &str) -> Self {
        (bits_u64(&s[..64]), bits_u64(&s[64..]) as u32)
    }
    fn bits(&self) -> String {
        u128_bits(self.0 as u128, 64) + &u128_bits(self.1 as u128, 32)
    }
}
impl TK for StdAddr {
    fn of(s: &str) -> Self {
        StdAddr::new(bits_u64(&s[3..11]) as i8, HashBytes(bits_to_bytes(&s[11..]).try_into().unwrap()))
    }
    fn bits(&self) -> String {
        format!("100{}{}", u128_bits(self.workchain as u8 as u128, 8), bytes_to_bits(&self.address.0, 256))
    }
}
impl TK for ShardIdentFull {
    fn of(s: &str) -> Self {
        ShardIdentFull { workchain: bits_u64(&s[..32]) as i32, prefix: bits_u64(&s[32..]) }
    }
    fn bits(&self) -> String {
        u128_bits(self.workchain as u32 as u128, 32) + &u128_bits(self.prefix as u128, 64)
    }
}

pub struct Ex {
    pub n: u16,
    pub kind: String,
    pub regs: Vec<Option<Cell>>,
    pub it: Interner,
    pub keep_alive: Vec<Cell>,
    /// Iterators tell what they gave before (and after) an error.
    pub partial: bool,
}

fn kb(d: &CellDataBuilder) -> String {
    slice_bits(&d.as_data_slice())
}
fn key_cell(s: &str) -> Cell {
    let mut b = CellBuilder::new();
    store_bits(&mut b, s).unwrap();
    b.build().unwrap()
}
fn bound(op: &Json) -> DictBound {
    if jb(&op["max"]) { DictBound::Max } else { DictBound::Min }
}
fn mode(op: &Json) -> SetMode {
    match js(&op["m"]) {
        "replace" => SetMode::Replace,
        "add" => SetMode::Add,
        _ => SetMode::Set,
    }
}
macro_rules! tr {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return err(&e),
        }
    };
}

impl Ex {
    pub fn new(cfg: &Json) -> Self {
        Ex {
            n: ju(&cfg["n"]) as u16,
            kind: js(&cfg["kind"]).to_owned(),
            regs: vec![None; 4],
            it: Interner::default(),
            keep_alive: Vec::new(),
            partial: false,
        }
    }
    fn val(&self, v: &Json) -> Cell {
        self.it.make(v)
    }
    fn items<T>(&mut self, it: impl Iterator<Item = Result<T, Error>>, f: impl Fn(&mut Interner, T) -> Json) -> Json {
        let mut v = Vec::new();
        let mut errors = 0;
        for x in it {
            match x {
                Ok(x) => v.push(f(&mut self.it, x)),
                Err(_) if self.partial && errors < 3 => {
                    errors += 1;
                    v.push(json!(["err"]));
                }
                Err(e) => return err(&e),
            }
        }
        json!(["ok", v])
    }
    fn opt_parts(&mut self, p: Option<CellSliceParts>) -> Json {
        match p {
            Some(p) => json!([self.it.parts(&p)]),
            None => json!([]),
        }
    }
    fn opt_entry(&mut self, p: Option<(CellDataBuilder, CellSliceParts)>) -> Json {
        match p {
            Some((k, p)) => json!([kb(&k), self.it.parts(&p)]),
            None => json!([]),
        }
    }
    fn opt_slice(&mut self, p: Option<CellSlice<'_>>) -> Json {
        match p {
            Some(p) => json!([self.it.slice(&p)]),
            None => json!([]),
        }
    }

    pub fn run(&mut self, op: &Json) -> Json {
        let name = js(&op["op"]);
        match name {
            "copy" => {
                self.regs[ju(&op["t"])] = self.regs[ju(&op["d"])].clone();
                return json!(["ok"]);
            }
            "clear" => {
                self.regs[ju(&op["d"])] = None;
                return json!(["ok"]);
            }
            // The structure of a register as it is now (histories must not disturb it).
            "dump" => {
                let r = self.regs[ju(&op["d"])].clone();
                return json!(["ok", self.it.opt(&r)]);
            }
            _ => {}
        }
        let d = ju(&op["d"]);
        let before = self.regs.clone();
        let res = guarded(|| match js(&op["L"]) {
            "raw" => self.raw_dispatch(op),
            "typed" => self.typed_dispatch(op),
            "aug" => self.aug_dispatch(op),
            _ => self.free(op),
        });
        // Whatever failed must not have changed anything.
        if res[0] != "ok" {
            let same = before.iter().zip(&self.regs).all(|(a, b)| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => a.repr_hash() == b.repr_hash(),
                _ => false,
            });
            let r = self.regs[d].clone();
            let id = self.it.opt(&r);
            self.regs = before;
            let what = if same { "same" } else { "changed" };
            return json!([res[0], res[1], what, id]);
        }
        res
    }

    fn free(&mut self, op: &Json) -> Json {
        let n = self.n;
        let d = ju(&op["d"]);
        let cx = CountingCx { fail_at: ju(&op["fail"]), ..Default::default() };
        let kc = key_cell(js(&op["k"]));
        let mut key = kc.as_slice_allow_exotic();
        let fin = |ex: &mut Ex, mut v: Vec<Json>, mutates: bool| {
            if mutates {
                let r = ex.regs[d].clone();
                v.push(json!(ex.it.opt(&r)));
            }
            let mut out = vec![json!("ok")];
            out.extend(v);
            out.push(json!([cx.gas.get(), cx.builds.get()]));
            Json::Array(out)
        };
        let root = self.regs[d].clone();
        match js(&op["op"]) {
            "get" => {
                let r = tr!(dict_get(root.as_ref(), n, key, &cx));
                let v = self.opt_slice(r);
                fin(self, vec![v], false)
            }
            "getown" => {
                let r = tr!(dict_get_owned(root.as_ref(), n, key, &cx));
                let v = self.opt_parts(r);
                fin(self, vec![v], false)
            }
            "find" => {
                let b = bound(op);
                let r = tr!(dict_find_owned(root.as_ref(), n, key, b, jb(&op["incl"]), jb(&op["signed"]), &cx));
                let v = self.opt_entry(r);
                fin(self, vec![v], false)
            }
            "bound" => {
                let r = tr!(dict_find_bound(root.as_ref(), n, bound(op), jb(&op["signed"]), &cx));
                let v = match r {
                    Some((k, v)) => json!([kb(&k), self.it.slice(&v)]),
                    None => json!([]),
                };
                fin(self, vec![v], false)
            }
            "boundown" => {
                let r = tr!(dict_find_bound_owned(root.as_ref(), n, bound(op), jb(&op["signed"]), &cx));
                let v = self.opt_entry(r);
                fin(self, vec![v], false)
            }
            "ins" => {
                let vc = self.val(&op["v"]);
                let r = tr!(dict_insert(&mut self.regs[d], &mut key, n, &vc.as_slice_allow_exotic(), mode(op), &cx));
                fin(self, vec![json!(r)], true)
            }
            "insown" => {
                let vc = self.val(&op["v"]);
                let (r, old) =
                    tr!(dict_insert_owned(&mut self.regs[d], &mut key, n, &vc.as_slice_allow_exotic(), mode(op), &cx));
                let old = self.opt_parts(old);
                fin(self, vec![json!(r), old], true)
            }
            "rem" => {
                let r = tr!(dict_remove_owned(&mut self.regs[d], &mut key, n, false, &cx));
                let v = self.opt_parts(r);
                fin(self, vec![v], true)
            }
            // All keys with a prefix.
            "remsub" => {
                let r = tr!(dict_remove_owned(&mut self.regs[d], &mut key, n, true, &cx));
                fin(self, vec![json!(r.is_some())], true)
            }
            "subdict" => {
                let r = tr!(dict_get_subdict(root.as_ref(), n, &mut key, &cx));
                json!(["ok", self.it.opt(&r)])
            }
            "splitraw" => {
                let r = tr!(dict_split_raw(root.as_ref(), n, &cx));
                json!(["ok", r.remaining_bit_len, self.it.opt(&r.left_branch), self.it.opt(&r.right_branch)])
            }
            "rembound" => {
                let r = tr!(dict_remove_bound_owned(&mut self.regs[d], n, bound(op), jb(&op["signed"]), &cx));
                let v = self.opt_entry(r);
                fin(self, vec![v], true)
            }
            "split" => {
                let (l, r) = tr!(dict_split_by_prefix(root.as_ref(), n, &key, &cx));
                self.split_out(op, l, r)
            }
            "mergesib" => {
                let r = tr!(dict_merge_siblings(&root, &self.regs[ju(&op["d2"])], n, &cx));
                self.store_out(op, r)
            }
            "merge" => {
                let other = self.regs[ju(&op["d2"])].clone();
                tr!(dict_merge(&mut self.regs[d], &other, n, &cx));
                let r = self.regs[d].clone();
                json!(["ok", self.it.opt(&r)])
            }
            "iter" => self.iter_free(op, root, n),
            "union" => {
                let b = self.regs[ju(&op["d2"])].clone();
                let it = UnionRawIter::new_ext(&root, &b, n, jb(&op["rev"]), jb(&op["signed"]));
                self.items(it, |i, (k, l, r)| {
                    let f = |i: &mut Interner, v: Option<CellSlice>| match v {
                        Some(v) => json!([i.slice(&v)]),
                        None => json!([]),
                    };
                    let l = f(i, l);
                    let r = f(i, r);
                    json!([kb(&k), l, r])
                })
            }
            "loadroot" => {
                let mut b = CellBuilder::new();
                if let Some(r) = &root {
                    tr!(b.store_slice(r.as_slice_allow_exotic()));
                }
                let t = self.val(&op["v"]);
                tr!(b.store_slice(t.as_slice_allow_exotic()));
                let c = tr!(b.build());
                let mut s = c.as_slice_allow_exotic();
                let r = tr!(dict_load_from_root(&mut s, n, &cx));
                let rest = self.it.slice(&s);
                json!(["ok", self.it.add(&r), rest])
            }
            x => json!(["tool", x]),
        }
    }

    fn iter_free(&mut self, op: &Json, root: Option<Cell>, n: u16) -> Json {
        let (rev, sg) = (jb(&op["rev"]), jb(&op["signed"]));
        match js(&op["kind"]) {
            "iter" => self.items(RawIter::new_ext(&root, n, rev, sg), |i, (k, v)| json!([kb(&k), i.slice(&v)])),
            "owned" => self.items(RawOwnedIter::new_ext(&root, n, rev, sg), |i, (k, v)| json!([kb(&k), i.parts(&v)])),
            "keys" => self.items(RawKeys::new_ext(&root, n, rev, sg), |_, k| json!(kb(&k))),
            "values" => self.items(RawValues::new_ext(&root, n, rev, sg), |i, v| i.slice(&v)),
            _ => self.items(RawOwnedValues::new_ext(&root, n, rev, sg), |i, v| i.parts(&v)),
        }
    }
    fn split_out(&mut self, op: &Json, l: Option<Cell>, r: Option<Cell>) -> Json {
        self.regs[ju(&op["t"])] = l.clone();
        self.regs[ju(&op["t2"])] = r.clone();
        json!(["ok", self.it.opt(&l), self.it.opt(&r)])
    }
    fn store_out(&mut self, op: &Json, r: Option<Cell>) -> Json {
        self.regs[ju(&op["t"])] = r.clone();
        json!(["ok", self.it.opt(&r)])
    }

    fn raw_dispatch(&mut self, op: &Json) -> Json {
        macro_rules! go { ($($n:literal)*) => { match self.n { $($n => self.raw::<$n>(op),)* _ => self.free(op) } } }
        go!(1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 63 64 65 96 100 127 128 160 200 255 256 257 264 267 320 511 512 700 1000 1008 1023)
    }
    fn raw<const N: u16>(&mut self, op: &Json) -> Json {
        let d = ju(&op["d"]);
        let kc = key_cell(js(&op["k"]));
        let key = kc.as_slice_allow_exotic();
        let mut dict = RawDict::<N>::from(self.regs[d].clone());
        let cx = Cell::empty_context();
        let sg = jb(&op["signed"]);
        let max = jb(&op["max"]);
        macro_rules! put {
            ($($v:expr),*) => {{
                self.regs[d] = dict.into_root();
                let r = self.regs[d].clone();
                json!(["ok", $($v,)* self.it.opt(&r), []])
            }};
        }
        match js(&op["op"]) {
            "get" => {
                let r = tr!(dict.get(key));
                json!(["ok", self.opt_slice(r), []])
            }
            "getown" => {
                let r = tr!(dict.get_owned(key));
                json!(["ok", self.opt_parts(r), []])
            }
            "contains" => json!(["ok", tr!(dict.contains_key(key))]),
            "empty" => json!(["ok", dict.is_empty()]),
            "find" => {
                let r = tr!(match (max, jb(&op["incl"])) {
                    (false, false) => dict.get_prev_owned(key, sg),
                    (false, true) => dict.get_or_prev_owned(key, sg),
                    (true, false) => dict.get_next_owned(key, sg),
                    (true, true) => dict.get_or_next_owned(key, sg),
                });
                json!(["ok", self.opt_entry(r), []])
            }
            "bound" => {
                let r = tr!(match (max, jb(&op["alt"])) {
                    (false, false) => dict.get_min(sg),
                    (true, false) => dict.get_max(sg),
                    _ => dict.get_bound(bound(op), sg),
                });
                let v = match r {
                    Some((k, v)) => json!([kb(&k), self.it.slice(&v)]),
                    None => json!([]),
                };
                json!(["ok", v, []])
            }
            "boundown" => {
                let r = tr!(match (max, jb(&op["alt"])) {
                    (false, false) => dict.get_min_owned(sg),
                    (true, false) => dict.get_max_owned(sg),
                    _ => dict.get_bound_owned(bound(op), sg),
                });
                json!(["ok", self.opt_entry(r), []])
            }
            "ins" => {
                let vc = self.val(&op["v"]);
                let v = vc.as_slice_allow_exotic();
                let r = match (mode(op), jb(&op["alt"])) {
                    (SetMode::Set, false) => dict.set(key, v),
                    (SetMode::Replace, false) => dict.replace(key, v),
                    (SetMode::Add, false) => dict.add(key, v),
                    (SetMode::Set, true) => dict.set_ext(key, &v, cx),
                    (SetMode::Replace, true) => dict.replace_ext(key, &v, cx),
                    (SetMode::Add, true) => dict.add_ext(key, &v, cx),
                };
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        self.regs[d] = dict.into_root();
                        return err(&e);
                    }
                };
                put!(r)
            }
            "rem" => {
                let r = tr!(dict.remove(key));
                let v = self.opt_parts(r);
                put!(v)
            }
            "rembound" => {
                let r = tr!(match (max, jb(&op["alt"])) {
                    (false, false) => dict.remove_min(sg),
                    (true, false) => dict.remove_max(sg),
                    _ => dict.remove_bound(bound(op), sg),
                });
                let v = self.opt_entry(r);
                put!(v)
            }
            "split" => {
                let (l, r) = tr!(if js(&op["k"]).is_empty() && jb(&op["alt"]) {
                    dict.split()
                } else {
                    dict.split_by_prefix(&key)
                });
                self.split_out(op, l.into_root(), r.into_root())
            }
            "iter" => {
                let (rev, rt) = (jb(&op["rev"]), self.regs[d].clone());
                let dict = RawDict::<N>::from(rt);
                macro_rules! it {
                    ($i:expr, $f:expr) => {{
                        let mut i = $i;
                        if rev {
                            i = i.reversed();
                        }
                        if sg {
                            i = i.signed();
                        }
                        self.items(i, $f)
                    }};
                }
                match js(&op["kind"]) {
                    "iter" => it!(dict.iter(), |i, (k, v)| json!([kb(&k), i.slice(&v)])),
                    "owned" => it!(dict.iter_owned(), |i, (k, v)| json!([kb(&k), i.parts(&v)])),
                    "keys" => it!(dict.keys(), |_, k| json!(kb(&k))),
                    "values" => it!(dict.values(), |i, v| i.slice(&v)),
                    _ => it!(dict.values_owned(), |i, v| i.parts(&v)),
                }
            }
            "build" => {
                let items: Vec<(RK<N>, Blob)> = op["items"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (RK(js(&x[0]).to_owned()), Blob(self.val(&x[1]))))
                    .collect();
                let r = if jb(&op["alt"]) {
                    tr!(RawDict::<N>::try_from_btree(&items.into_iter().rev().collect::<BTreeMap<_, _>>())).into_root()
                } else {
                    tr!(RawDict::<N>::try_from_sorted_slice(&items)).into_root()
                };
                self.store_out(op, r)
            }
            "modify" => {
                let items: Vec<(RK<N>, Option<Blob>)> = op["items"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (RK(js(&x[0]).to_owned()), x[1].get(0).map(|v| Blob(self.val(v)))))
                    .collect();
                let cx = CountingCx { fail_at: ju(&op["fail"]), ..Default::default() };
                let stop = op["stop"].as_u64().map(|x| x as usize);
                let mut i = 0;
                let r = tr!(dict_modify_from_sorted_iter(
                    &mut self.regs[d],
                    items,
                    |x| x.0.clone(),
                    |x| {
                        i += 1;
                        if stop == Some(i) { Err(Error::Cancelled) } else { Ok(x.1) }
                    },
                    &cx,
                ));
                let c = self.regs[d].clone();
                json!(["ok", r, self.it.opt(&c)])
            }
            // Store into and load from a builder: `^root` behind a presence bit.
            "ser" => {
                let c = tr!(CellBuilder::build_from(&dict));
                let back = tr!(c.parse::<RawDict<N>>());
                let rt = back.into_root();
                json!(["ok", self.it.add(&c), self.it.opt(&rt)])
            }
            "eq" => {
                let o = RawDict::<N>::from(self.regs[ju(&op["d2"])].clone());
                json!(["ok", dict == o])
            }
            _ => self.free(op),
        }
    }

    fn typed_dispatch(&mut self, op: &Json) -> Json {
        if matches!(js(&op["op"]), "build" | "modify") {
            macro_rules! go { ($($k:literal => $t:ty,)*) => { match self.kind.as_str() { $($k => self.typed_bulk::<$t>(op),)* x => json!(["tool", x]) } } }
            return go!("bool" => bool, "u8" => u8, "i8" => i8, "u16" => u16, "i16" => i16, "u32" => u32, "i32" => i32,
                "u64" => u64, "i64" => i64, "u128" => u128, "i128" => i128, "b16" => [u8; 16], "b20" => [u8; 20],
                "b32" => [u8; 32], "hash" => HashBytes, "pair" => (u64, u32), "addr" => StdAddr,);
        }
        macro_rules! go { ($($k:literal => $t:ty,)*) => { match self.kind.as_str() { $($k => self.typed::<$t>(op),)* _ => self.free(op) } } }
        go!("bool" => bool, "u8" => u8, "i8" => i8, "u16" => u16, "i16" => i16, "u32" => u32, "i32" => i32,
            "u64" => u64, "i64" => i64, "u128" => u128, "i128" => i128, "b16" => [u8; 16], "b20" => [u8; 20],
            "b32" => [u8; 32], "hash" => HashBytes, "pair" => (u64, u32), "addr" => StdAddr, "shard" => ShardIdentFull,)
    }
    fn typed_bulk<K: TK + Ord>(&mut self, op: &Json) -> Json {
        let alt = jb(&op["alt"]);
        let list = op["items"].as_array().unwrap();
        if js(&op["op"]) == "build" {
            let items: Vec<(K, Blob)> = list.iter().map(|x| (K::of(js(&x[0])), Blob(self.val(&x[1])))).collect();
            let r = if alt {
                tr!(Dict::<K, Blob>::try_from_btree(&items.into_iter().rev().collect::<BTreeMap<_, _>>()))
            } else {
                tr!(Dict::<K, Blob>::try_from_sorted_slice(&items))
            };
            return self.store_out(op, r.into_root());
        }
        let d = ju(&op["d"]);
        let items: Vec<(K, Option<Blob>)> = list.iter().map(|x| (K::of(js(&x[0])), x[1].get(0).map(|v| Blob(self.val(v))))).collect();
        let mut dict = Dict::<K, Blob>::from_raw(self.regs[d].clone());
        let r = if alt {
            dict.modify_with_sorted_iter(items)
        } else {
            let stop = op["stop"].as_u64().map(|x| x as usize);
            let mut i = 0;
            dict.modify_with_sorted_iter_ext(
                items,
                |x| x.0.clone(),
                |x| {
                    i += 1;
                    if stop == Some(i) { Err(Error::Cancelled) } else { Ok(x.1) }
                },
                Cell::empty_context(),
            )
        };
        self.regs[d] = dict.into_root();
        let r = tr!(r);
        let c = self.regs[d].clone();
        json!(["ok", r, self.it.opt(&c)])
    }
    fn typed<K: TK>(&mut self, op: &Json) -> Json {
        let d = ju(&op["d"]);
        // Keys of a wrong length cannot be expressed in the typed layer.
        if !op["k"].is_null() && js(&op["op"]) != "split" && js(&op["k"]).len() != K::BITS as usize {
            return self.free(op);
        }
        let key = || K::of(js(&op["k"]));
        let mut dict = Dict::<K, Blob>::from_raw(self.regs[d].clone());
        let (sg, max, rev, alt) = (jb(&op["signed"]), jb(&op["max"]), jb(&op["rev"]), jb(&op["alt"]));
        macro_rules! put {
            ($($v:expr),*) => {{
                self.regs[d] = dict.into_root();
                let r = self.regs[d].clone();
                json!(["ok", $($v,)* self.it.opt(&r), []])
            }};
        }
        fn blob(it: &mut Interner, b: &Blob) -> Json {
            it.slice(&b.0.as_slice_allow_exotic())
        }
        match js(&op["op"]) {
            "get" => {
                let v = if alt {
                    let r = tr!(dict.get(key()));
                    match r {
                        Some(b) => json!([blob(&mut self.it, &b)]),
                        None => json!([]),
                    }
                } else {
                    let r = tr!(dict.get_raw(key()));
                    self.opt_slice(r)
                };
                json!(["ok", v, []])
            }
            "getown" => {
                let r = tr!(dict.get_raw_owned(key()));
                json!(["ok", self.opt_parts(r), []])
            }
            "contains" => json!(["ok", tr!(dict.contains_key(key()))]),
            "empty" => json!(["ok", dict.is_empty()]),
            "find" => {
                let r = tr!(match (max, jb(&op["incl"])) {
                    (false, false) => dict.get_prev(key(), sg),
                    (false, true) => dict.get_or_prev(key(), sg),
                    (true, false) => dict.get_next(key(), sg),
                    (true, true) => dict.get_or_next(key(), sg),
                });
                let v = match r {
                    Some((k, v)) => json!([k.bits(), blob(&mut self.it, &v)]),
                    None => json!([]),
                };
                json!(["ok", v, []])
            }
            "bound" => {
                let v = if alt {
                    let r = tr!(if max { dict.get_max(sg) } else { dict.get_min(sg) });
                    match r {
                        Some((k, v)) => json!([k.bits(), blob(&mut self.it, &v)]),
                        None => json!([]),
                    }
                } else {
                    match tr!(dict.get_bound_raw(bound(op), sg)) {
                        Some((k, v)) => json!([k.bits(), self.it.slice(&v)]),
                        None => json!([]),
                    }
                };
                json!(["ok", v, []])
            }
            "ins" => {
                let v = Blob(self.val(&op["v"]));
                let r = match mode(op) {
                    SetMode::Set => dict.set(key(), v),
                    SetMode::Replace => dict.replace(key(), v),
                    SetMode::Add => dict.add(key(), v),
                };
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        self.regs[d] = dict.into_root();
                        return err(&e);
                    }
                };
                put!(r)
            }
            "rem" => {
                let v = if alt {
                    match tr!(dict.remove(key())) {
                        Some(b) => json!([blob(&mut self.it, &b)]),
                        None => json!([]),
                    }
                } else {
                    let r = tr!(dict.remove_raw(key()));
                    self.opt_parts(r)
                };
                put!(v)
            }
            "rembound" => {
                let r = tr!(match (max, alt) {
                    (false, false) => dict.remove_min_raw(sg),
                    (true, false) => dict.remove_max_raw(sg),
                    _ => dict.remove_bound_raw(bound(op), sg),
                });
                let v = match r {
                    Some((k, p)) => json!([k.bits(), self.it.parts(&p)]),
                    None => json!([]),
                };
                put!(v)
            }
            "split" => {
                let kc = key_cell(js(&op["k"]));
                let (l, r) = tr!(if js(&op["k"]).is_empty() && alt {
                    dict.split()
                } else {
                    dict.split_by_prefix(&kc.as_slice_allow_exotic())
                });
                self.split_out(op, l.into_root(), r.into_root())
            }
            "mergesib" => {
                let o = Dict::<K, Blob>::from_raw(self.regs[ju(&op["d2"])].clone());
                let r = tr!(dict.merge_with_right_sibling(&o)).into_root();
                self.store_out(op, r)
            }
            "iter" => {
                let dict = Dict::<K, Blob>::from_raw(self.regs[d].clone());
                macro_rules! it {
                    ($i:expr, $f:expr) => {{
                        let mut i = $i;
                        if rev {
                            i = i.reversed();
                        }
                        if sg {
                            i = i.signed();
                        }
                        self.items(i, $f)
                    }};
                }
                match js(&op["kind"]) {
                    "iter" if alt => it!(dict.raw_iter(), |i, (k, v)| json!([kb(&k), i.slice(&v)])),
                    "iter" => it!(dict.iter(), |i, (k, v)| json!([k.bits(), blob(i, &v)])),
                    "keys" if alt => it!(dict.raw_keys(), |_, k| json!(kb(&k))),
                    "keys" => it!(dict.keys(), |_, k| json!(k.bits())),
                    "values" if alt => it!(dict.raw_values(), |i, v| i.slice(&v)),
                    "values" => it!(dict.values(), |i, v| blob(i, &v)),
                    _ => self.iter_free(op, dict.into_root(), K::BITS),
                }
            }
            "union" => {
                let a = Dict::<K, Blob>::from_raw(self.regs[d].clone());
                let b = Dict::<K, Blob>::from_raw(self.regs[ju(&op["d2"])].clone());
                let mut i = a.iter_union(&b);
                if rev {
                    i = i.reversed();
                }
                if sg {
                    i = i.signed();
                }
                self.items(i, |i, (k, l, r)| {
                    let f = |i: &mut Interner, v: Option<Blob>| match v {
                        Some(v) => json!([blob(i, &v)]),
                        None => json!([]),
                    };
                    let l = f(i, l);
                    let r = f(i, r);
                    json!([k.bits(), l, r])
                })
            }
            "loadroot" => {
                let mut b = CellBuilder::new();
                if let Some(r) = &self.regs[d] {
                    tr!(b.store_slice(r.as_slice_allow_exotic()));
                }
                let t = self.val(&op["v"]);
                tr!(b.store_slice(t.as_slice_allow_exotic()));
                let c = tr!(b.build());
                let mut s = c.as_slice_allow_exotic();
                let r = tr!(Dict::<K, Blob>::load_from_root_ext(&mut s, Cell::empty_context()));
                let rest = self.it.slice(&s);
                json!(["ok", self.it.add(r.root().as_ref().unwrap()), rest])
            }
            "ser" => {
                let c = tr!(CellBuilder::build_from(&dict));
                let back = tr!(c.parse::<Dict<K, Blob>>());
                let rt = back.into_root();
                json!(["ok", self.it.add(&c), self.it.opt(&rt)])
            }
            "eq" => {
                let o = Dict::<K, Blob>::from_raw(self.regs[ju(&op["d2"])].clone());
                json!(["ok", dict == o])
            }
            _ => self.free(op),
        }
    }

    fn aug_dispatch(&mut self, op: &Json) -> Json {
        macro_rules! go { ($($k:literal => $t:ty,)*) => { match self.kind.as_str() { $($k => self.aug::<$t>(op),)* x => json!(["tool", x]) } } }
        go!("u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "hash" => HashBytes, "pair" => (u64, u32),
            "i8" => i8, "i16" => i16, "i64" => i64, "addr" => StdAddr,)
    }
    fn aug<K: TK + Ord>(&mut self, op: &Json) -> Json {
        let d = ju(&op["d"]);
        let key = || K::of(js(&op["k"]));
        type D<K> = AugDict<K, X16, Blob>;
        fn open<K: TK>(r: &Option<Cell>) -> Result<D<K>, Error> {
            let mut d = D::<K>::from_parts(Dict::from_raw(r.clone()), X16(0));
            d.update_root_extra()?;
            Ok(d)
        }
        let mut dict = tr!(open::<K>(&self.regs[d]));
        let (sg, rev, alt) = (jb(&op["signed"]), jb(&op["rev"]), jb(&op["alt"]));
        fn blob(it: &mut Interner, x: &X16, b: &Blob) -> Json {
            let s = it.slice(&b.0.as_slice_allow_exotic());
            json!([s[0], s[1], x.0])
        }
        macro_rules! put {
            ($dict:expr, $($v:expr),*) => {{
                let dict = $dict;
                let x = dict.root_extra().0;
                self.regs[d] = dict.into_parts().0.into_root();
                let r = self.regs[d].clone();
                json!(["ok", $($v,)* self.it.opt(&r), x])
            }};
        }
        macro_rules! out {
            ($t:expr, $dict:expr) => {{
                let x = $dict.root_extra().0;
                let r = $dict.into_parts().0.into_root();
                self.regs[$t] = r.clone();
                json!([self.it.opt(&r), x])
            }};
        }
        let val = |ex: &Ex, v: &Json| (X16(ju(&v[2]) as u16), Blob(ex.val(v)));
        match js(&op["op"]) {
            "get" => {
                let v = match tr!(dict.get(key())) {
                    Some((x, b)) => json!([blob(&mut self.it, &x, &b)]),
                    None => json!([]),
                };
                json!(["ok", v])
            }
            "contains" => json!(["ok", tr!(dict.contains_key(key()))]),
            "ins" => {
                let (x, v) = val(self, &op["v"]);
                let r = match mode(op) {
                    SetMode::Set => dict.set(key(), x, v),
                    SetMode::Replace => dict.replace(key(), x, v),
                    SetMode::Add => dict.add(key(), x, v),
                };
                match r {
                    Ok(r) => put!(dict, r),
                    Err(e) => {
                        self.regs[d] = dict.into_parts().0.into_root();
                        err(&e)
                    }
                }
            }
            "rem" => {
                let v = if alt {
                    match tr!(dict.remove(key())) {
                        Some((x, b)) => json!([blob(&mut self.it, &x, &b)]),
                        None => json!([]),
                    }
                } else {
                    match tr!(dict.remove_raw(key())) {
                        Some(p) => {
                            let mut s = p.0.apply_allow_exotic(&p.1);
                            let x = tr!(X16::load_from(&mut s)).0;
                            let s = self.it.slice(&s);
                            json!([[s[0], s[1], x]])
                        }
                        None => json!([]),
                    }
                };
                put!(dict, v)
            }
            "remsub" => {
                let kc = key_cell(js(&op["k"]));
                let mut key = kc.as_slice_allow_exotic();
                let cx = Cell::empty_context();
                let mut root = self.regs[d].clone();
                let r = tr!(aug_dict_remove_owned(&mut root, &mut key, K::BITS, true, X16::comp_add, cx));
                let dict = tr!(open::<K>(&root));
                put!(dict, json!(r.is_some()))
            }
            "build" => {
                let items: Vec<(K, X16, Blob)> = op["items"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| {
                        let (e, v) = val(self, &x[1]);
                        (K::of(js(&x[0])), e, v)
                    })
                    .collect();
                let r = if alt {
                    let m: BTreeMap<K, (X16, Blob)> = items.into_iter().rev().map(|(k, x, v)| (k, (x, v))).collect();
                    tr!(D::<K>::try_from_btree(&m))
                } else {
                    tr!(D::<K>::try_from_sorted_slice(&items))
                };
                let v = out!(ju(&op["t"]), r);
                json!(["ok", v[0], v[1]])
            }
            "modify" => {
                let items: Vec<(K, Option<(X16, Blob)>)> = op["items"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (K::of(js(&x[0])), x[1].get(0).map(|v| val(self, v))))
                    .collect();
                let r = dict.modify_with_sorted_iter(items);
                match r {
                    Ok(r) => put!(dict, r),
                    Err(e) => {
                        self.regs[d] = dict.into_parts().0.into_root();
                        err(&e)
                    }
                }
            }
            "split" => {
                let kc = key_cell(js(&op["k"]));
                let (l, r) = tr!(if js(&op["k"]).is_empty() && alt {
                    dict.split()
                } else {
                    dict.split_by_prefix(&kc.as_slice_allow_exotic())
                });
                let l = out!(ju(&op["t"]), l);
                let r = out!(ju(&op["t2"]), r);
                json!(["ok", l[0], r[0], l[1], r[1]])
            }
            "mergesib" => {
                let o = tr!(open::<K>(&self.regs[ju(&op["d2"])]));
                let r = tr!(dict.merge_with_right_sibling(&o));
                let v = out!(ju(&op["t"]), r);
                json!(["ok", v[0], v[1]])
            }
            "iter" => {
                let dict = tr!(open::<K>(&self.regs[d]));
                match js(&op["kind"]) {
                    "iter" => {
                        let mut i = dict.iter();
                        if rev {
                            i = i.reversed();
                        }
                        if sg {
                            i = i.signed();
                        }
                        self.items(i, |i, (k, x, v)| json!([k.bits(), blob(i, &x, &v)]))
                    }
                    "keys" => {
                        let mut i = dict.keys();
                        if rev {
                            i = i.reversed();
                        }
                        if sg {
                            i = i.signed();
                        }
                        self.items(i, |_, k| json!(k.bits()))
                    }
                    _ => {
                        let mut i = dict.values();
                        if rev {
                            i = i.reversed();
                        }
                        if sg {
                            i = i.signed();
                        }
                        self.items(i, |i, (x, v)| blob(i, &x, &v))
                    }
                }
            }
            // Descends by the extras on both sides of every fork.
            "byextra" => {
                struct Flow(bool);
                impl SearchByExtra<X16> for Flow {
                    fn on_edge(&mut self, l: &X16, r: &X16) -> std::ops::ControlFlow<(), Branch> {
                        std::ops::ControlFlow::Continue(Branch::from((l.0 < r.0) == self.0))
                    }
                }
                let dict = tr!(open::<K>(&self.regs[d]));
                let v = match tr!(dict.find_by_extra(Flow(jb(&op["max"])))) {
                    Some((k, x, b)) => json!([k.bits(), blob(&mut self.it, &x, &b)]),
                    None => json!([]),
                };
                json!(["ok", v])
            }
            "ser" => {
                let c = tr!(CellBuilder::build_from(&dict));
                let back = tr!(c.parse::<D<K>>());
                let x = back.root_extra().0;
                let rt = back.into_parts().0.into_root();
                json!(["ok", self.it.add(&c), self.it.opt(&rt), x])
            }
            "loadroot" => {
                let mut b = CellBuilder::new();
                if let Some(r) = &self.regs[d] {
                    tr!(b.store_slice(r.as_slice_allow_exotic()));
                }
                let t = self.val(&op["v"]);
                tr!(b.store_slice(t.as_slice_allow_exotic()));
                let c = tr!(b.build());
                let mut s = c.as_slice_allow_exotic();
                let r = tr!(D::<K>::load_from_root_ext(&mut s, Cell::empty_context()));
                let rest = self.it.slice(&s);
                let x = r.root_extra().0;
                json!(["ok", self.it.add(r.dict().root().as_ref().unwrap()), rest, x])
            }
            x => json!(["tool", x]),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    let mut ex = Ex::new(cfg);
    if !cfg["cells"].is_null() {
        ex.it = Interner::load(&cfg["cells"]);
    }
    let mut ev = Vec::new();
    for op in ops {
        let mut op = op.clone();
        let r = ex.run(&op);
        op["r"] = r;
        ev.push(op);
    }
    Trace { cfg: cfg.clone(), cells: std::mem::take(&mut ex.it.table), ev }
}

const RAW_LENS: &[u16] = &[
    1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 96, 100, 127, 128, 160, 200, 255, 256, 257, 264, 320, 511, 512, 700,
    1000, 1008, 1023,
];
const KINDS: &[(&str, u16)] = &[
    ("bool", 1), ("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16), ("u32", 32), ("i32", 32), ("u64", 64), ("i64", 64),
    ("u128", 128), ("i128", 128), ("b16", 128), ("b20", 160), ("b32", 256), ("hash", 256), ("pair", 96), ("addr", 267),
    ("shard", 96),
];
const AUG_KINDS: &[(&str, u16)] = &[("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("hash", 256), ("pair", 96),
    ("i8", 8), ("i16", 16), ("i64", 64), ("addr", 267)];

/// Where the sign bit of a kind of keys is, if it has one: with it flipped keys are in the order of the type.
fn in_type_order(kind: &str, k: &str) -> String {
    let at = match kind {
        "i8" | "i16" | "i32" | "i64" | "i128" => 0,
        "addr" => 3,
        _ => return k.to_owned(),
    };
    let mut b = k.as_bytes().to_vec();
    if at < b.len() {
        b[at] ^= 1;
    }
    String::from_utf8(b).unwrap()
}

pub struct Gen {
    pub rng: Rng,
    keys: Vec<String>,
    payload: usize,
    aug: bool,
    big: bool,
}
impl Gen {
    fn key(&mut self) -> String {
        self.rng.pick(&self.keys).clone()
    }
    fn value(&mut self) -> Json {
        let nb = match self.rng.below(10) {
            0 => 0,
            1..=5 => self.rng.below(12),
            6 | 7 => self.rng.below(80),
            8 => self.rng.below(if self.big { 900 } else { 120 }),
            _ => self.rng.below(if self.big { 1024 } else { 20 }),
        };
        let bits = self.rng.mixed_bits(nb);
        let nr = [0, 0, 0, 1, 1, 2, 3, 4][self.rng.below(8)];
        let refs: Vec<usize> = (0..nr).map(|_| 1 + self.rng.below(self.payload)).collect();
        let nr = if self.aug && self.rng.chance(1, 2) { 0 } else { nr };
        let refs = &refs[..nr];
        if self.aug { json!([bits, refs, self.rng.below(65536)]) } else { json!([bits, refs]) }
    }
}

fn key_pool(rng: &mut Rng, n: usize, fix: &str) -> Vec<String> {
    let size = *rng.pick(&[2, 4, 8, 14, 24]);
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..size {
        let mut k = if keys.is_empty() || rng.chance(1, 4) {
            rng.mixed_bits(n)
        } else {
            // Shares a prefix of any length with an earlier key.
            let base = rng.pick(&keys).clone();
            let at = match rng.below(4) {
                0 => n - 1 - rng.below(n.min(4)),
                1 => rng.below(n.min(4)),
                _ => rng.below(n),
            };
            let mut k: Vec<u8> = base.into_bytes();
            k[at] ^= 1;
            match rng.below(4) {
                0 => {
                    let tail = rng.mixed_bits(n - at - 1).into_bytes();
                    k[at + 1..].copy_from_slice(&tail);
                }
                1 => {
                    let c = b'0' + rng.flip() as u8;
                    k[at + 1..].iter_mut().for_each(|x| *x = c);
                }
                _ => {}
            }
            String::from_utf8(k).unwrap()
        };
        k.replace_range(..fix.len(), fix);
        keys.push(k);
    }
    keys
}

/// `sel`: which kind of history ("map", "bulk", "order", "aug", "cx").
pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut rng = Rng::new(seed);
    let aug = sel == "aug";
    let layer0 = if aug { "aug" } else { *rng.pick(&["free", "raw", "typed", "mix"]) };
    let layer0 = if sel == "cx" { "free" } else if sel == "bulk" { *rng.pick(&["raw", "raw", "typed"]) } else { layer0 };
    let (kind, n) = if aug {
        *rng.pick(AUG_KINDS)
    } else if layer0 == "typed" || layer0 == "mix" && rng.flip() {
        *rng.pick(KINDS)
    } else if layer0 == "free" && rng.chance(1, 3) {
        ("", rng.range(1, 1023) as u16)
    } else {
        ("", *rng.pick(RAW_LENS))
    };
    // This one is not in an order.
    let (kind, n) = if sel == "bulk" && kind == "shard" { ("addr", 267) } else { (kind, n) };
    let mut cfg = json!({"n": n, "kind": kind, "aug": aug as u8});
    let mut it = Interner::default();
    for _ in 0..3 {
        let c = rand_cell(&mut rng, 1, 40);
        it.add(&c);
    }
    let payload = it.table.len();
    cfg["cells"] = json!(it.table.clone());
    let mut ex = Ex::new(&cfg);
    ex.it = Interner::load(&cfg["cells"]);
    let keys = key_pool(&mut rng, n as usize, if kind == "addr" { "100" } else { "" });
    let big = rng.chance(1, 4);
    let mut g = Gen { rng, keys, payload, aug, big };
    let mut ev = Vec::new();
    for _ in 0..len {
        let mut op = gen_op(&mut g, sel, n as usize, kind, layer0);
        if sel == "cx" {
            // Learn how many times the operation consults its context, then make one of them fail.
            let (save, isave) = (ex.regs.clone(), ex.it.table.len());
            if g.rng.chance(1, 3) {
                let cx_calls = probe_calls(&mut ex, &op);
                ex.regs = save;
                let _ = isave;
                if cx_calls > 0 {
                    op["fail"] = json!(1 + g.rng.below(cx_calls));
                }
            }
        }
        let r = ex.run(&op);
        op["r"] = r;
        ev.push(op);
        if g.rng.chance(1, 10) {
            let d = g.rng.below(4);
            let mut op = json!({"op": "dump", "d": d});
            op["r"] = ex.run(&op);
            ev.push(op);
        }
    }
    Trace { cfg, cells: ex.it.table, ev }
}

fn probe_calls(ex: &mut Ex, op: &Json) -> usize {
    // The number of context calls is found by failing later and later until nothing fails.
    let save = ex.regs.clone();
    for i in 1.. {
        let mut o = op.clone();
        o["fail"] = json!(i);
        let r = ex.run(&o);
        ex.regs = save.clone();
        if r[0] != "err" || r[1] != "Cancelled" || i > 4000 {
            return i - 1;
        }
    }
    0
}

fn gen_op(g: &mut Gen, sel: &str, n: usize, kind: &str, layer0: &str) -> Json {
    let layer = match layer0 {
        "mix" if !kind.is_empty() => *g.rng.pick(&["free", "raw", "typed"]),
        "mix" => *g.rng.pick(&["free", "raw"]),
        x => x,
    };
    let d = if g.rng.chance(3, 4) { 0 } else { g.rng.below(4) };
    let d2 = g.rng.below(4);
    let m = *g.rng.pick(&["set", "set", "set", "replace", "add"]);
    let mut k = g.key();
    if sel != "aug" && layer != "typed" && g.rng.chance(1, 60) {
        // A key of the wrong length.
        if g.rng.flip() || n == 1023 {
            k.truncate(g.rng.below(n));
        } else {
            k.push('1');
        }
    }
    let (signed, max, incl, rev, alt) = (g.rng.flip(), g.rng.flip(), g.rng.flip(), g.rng.flip(), g.rng.flip());
    let ins = |g: &mut Gen, k: &str, d: usize| {
        let v = g.value();
        let op = if layer == "free" && g.rng.flip() { "insown" } else { "ins" };
        json!({"op": op, "L": layer, "d": d, "k": k, "v": v, "m": m, "alt": alt})
    };
    let prefix = |g: &mut Gen| {
        let k = g.key();
        let at = match g.rng.below(3) {
            0 => g.rng.below(4.min(k.len() + 1)),
            _ => g.rng.below(k.len() + 1),
        };
        k[..at].to_owned()
    };
    match sel {
        "map" => match g.rng.below(20) {
            0..=8 => ins(g, &k, d),
            9..=12 => json!({"op": "rem", "L": layer, "d": d, "k": k, "alt": alt}),
            13 => json!({"op": "get", "L": layer, "d": d, "k": k, "alt": alt}),
            14 => json!({"op": "getown", "L": layer, "d": d, "k": k}),
            15 if layer != "free" => json!({"op": "contains", "L": layer, "d": d, "k": k}),
            15 => json!({"op": "get", "L": layer, "d": d, "k": k}),
            16 => json!({"op": "copy", "d": d, "t": d2}),
            17 => json!({"op": "rembound", "L": layer, "d": d, "max": max, "signed": signed, "alt": alt}),
            18 if layer != "free" => match g.rng.below(3) {
                0 => json!({"op": "ser", "L": layer, "d": d}),
                1 => json!({"op": "eq", "L": layer, "d": d, "d2": d2}),
                _ => json!({"op": "empty", "L": layer, "d": d}),
            },
            _ => json!({"op": "loadroot", "L": if layer == "raw" { "free" } else { layer }, "d": d, "v": g.value()}),
        },
        "order" => match g.rng.below(24) {
            0..=8 => ins(g, &k, d),
            9 => json!({"op": "rem", "L": layer, "d": d, "k": k, "alt": alt}),
            10..=15 => {
                // Neighbours of keys that need not be present.
                let k = if g.rng.chance(1, 3) && kind != "addr" { g.rng.mixed_bits(n) } else { g.key() };
                json!({"op": "find", "L": layer, "d": d, "k": k, "max": max, "signed": signed, "incl": incl})
            }
            16 => json!({"op": "bound", "L": layer, "d": d, "max": max, "signed": signed, "alt": alt}),
            17 if layer != "typed" => {
                json!({"op": "boundown", "L": layer, "d": d, "max": max, "signed": signed, "alt": alt})
            }
            17 | 18 => json!({"op": "rembound", "L": layer, "d": d, "max": max, "signed": signed, "alt": alt}),
            19..=21 => {
                let kd = *g.rng.pick(&["iter", "owned", "keys", "values", "ownvalues"]);
                json!({"op": "iter", "L": layer, "d": d, "kind": kd, "rev": rev, "signed": signed, "alt": alt})
            }
            22 => {
                let l = if layer == "raw" { "free" } else { layer };
                json!({"op": "union", "L": l, "d": d, "d2": d2, "rev": rev, "signed": signed})
            }
            _ => json!({"op": "copy", "d": d, "t": d2}),
        },
        "bulk" => {
            let sorted = |g: &mut Gen| {
                let mut ks: Vec<String> = g.keys.iter().filter(|_| false).cloned().collect();
                let p = 1 + g.rng.below(4);
                for k in g.keys.clone() {
                    if g.rng.chance(p, 5) {
                        ks.push(k);
                    }
                }
                if g.rng.chance(1, 3) && kind != "addr" {
                    for _ in 0..g.rng.below(8) {
                        ks.push(g.rng.mixed_bits(n));
                    }
                }
                if layer == "typed" {
                    ks.sort_by_key(|k| in_type_order(kind, k));
                } else {
                    ks.sort();
                }
                ks
            };
            match g.rng.below(20) {
                0..=2 => ins(g, &k, d),
                3 | 4 => json!({"op": "rem", "L": layer, "d": d, "k": k}),
                5..=10 => {
                    let mut ks = sorted(g);
                    ks.dedup();
                    if ks.len() > 1 && g.rng.chance(1, 20) {
                        ks.reverse();
                    }
                    let items: Vec<Json> = ks
                        .into_iter()
                        .map(|k| if g.rng.chance(2, 5) { json!([k, []]) } else { json!([k, [g.value()]]) })
                        .collect();
                    let mut op = json!({"op": "modify", "L": layer, "d": d, "items": items, "alt": alt});
                    if (layer == "raw" || !alt) && g.rng.chance(1, 12) && !items.is_empty() {
                        op["stop"] = json!(1 + g.rng.below(items.len()));
                    }
                    op
                }
                11 | 12 => {
                    let mut ks = sorted(g);
                    if !ks.is_empty() && g.rng.chance(1, 4) {
                        let i = g.rng.below(ks.len());
                        ks.insert(i, ks[i].clone());
                    }
                    let unsorted = ks.len() > 1 && g.rng.chance(1, 8);
                    if unsorted {
                        ks.reverse();
                    }
                    let items: Vec<Json> = ks.into_iter().map(|k| json!([k, g.value()])).collect();
                    json!({"op": "build", "L": layer, "t": d, "items": items, "alt": alt && !unsorted})
                }
                13 | 14 => {
                    let l = *g.rng.pick(&["free", "raw"]);
                    json!({"op": "split", "L": l, "d": d, "k": prefix(g), "t": g.rng.below(4), "t2": d2, "alt": alt})
                }
                15 if alt => json!({"op": "remsub", "L": "free", "d": d, "k": prefix(g)}),
                16 if alt => match g.rng.below(4) {
                    0 => json!({"op": "subdict", "L": "free", "d": d, "k": prefix(g)}),
                    _ => json!({"op": "splitraw", "L": "free", "d": d}),
                },
                15 | 16 => json!({"op": "mergesib", "L": "free", "d": d, "d2": d2, "t": g.rng.below(4)}),
                17 | 18 => json!({"op": "merge", "L": "free", "d": d, "d2": d2}),
                _ => json!({"op": "copy", "d": d, "t": d2}),
            }
        }
        "cx" => match g.rng.below(16) {
            0..=6 => ins(g, &k, d),
            7 | 8 => json!({"op": "rem", "L": "free", "d": d, "k": k}),
            9 => json!({"op": "get", "L": "free", "d": d, "k": k}),
            10 => json!({"op": "getown", "L": "free", "d": d, "k": k}),
            11 => json!({"op": "find", "L": "free", "d": d, "k": k, "max": max, "signed": signed, "incl": incl}),
            12 => json!({"op": "bound", "L": "free", "d": d, "max": max, "signed": signed}),
            13 => json!({"op": "boundown", "L": "free", "d": d, "max": max, "signed": signed}),
            14 => json!({"op": "rembound", "L": "free", "d": d, "max": max, "signed": signed}),
            _ => json!({"op": "copy", "d": d, "t": d2}),
        },
        // aug
        _ => match g.rng.below(24) {
            0..=7 => ins(g, &k, d),
            8 if max && incl => json!({"op": "remsub", "L": "aug", "d": d, "k": prefix(g)}),
            8 | 9 => json!({"op": "rem", "L": "aug", "d": d, "k": k, "alt": alt}),
            10 => json!({"op": "get", "L": "aug", "d": d, "k": k}),
            11 => json!({"op": "contains", "L": "aug", "d": d, "k": k}),
            12 | 13 => {
                let mut ks = g.keys.clone();
                ks.retain(|_| g.rng.flip());
                ks.sort_by_key(|k| in_type_order(kind, k));
                ks.dedup();
                let items: Vec<Json> = ks
                    .into_iter()
                    .map(|k| if g.rng.chance(2, 5) { json!([k, []]) } else { json!([k, [g.value()]]) })
                    .collect();
                json!({"op": "modify", "L": "aug", "d": d, "items": items})
            }
            14 | 15 => {
                let mut ks = g.keys.clone();
                ks.retain(|_| g.rng.flip());
                ks.sort_by_key(|k| in_type_order(kind, k));
                let items: Vec<Json> = ks.into_iter().map(|k| json!([k, g.value()])).collect();
                json!({"op": "build", "L": "aug", "t": d, "items": items, "alt": alt})
            }
            16 | 17 => json!({"op": "split", "L": "aug", "d": d, "k": prefix(g), "t": g.rng.below(4), "t2": d2, "alt": alt}),
            18 => json!({"op": "mergesib", "L": "aug", "d": d, "d2": d2, "t": g.rng.below(4)}),
            19 => {
                let kd = *g.rng.pick(&["iter", "keys", "values"]);
                json!({"op": "iter", "L": "aug", "d": d, "kind": kd, "rev": rev, "signed": signed})
            }
            20 => json!({"op": "byextra", "L": "aug", "d": d, "max": max}),
            21 => json!({"op": "ser", "L": "aug", "d": d}),
            22 => json!({"op": "loadroot", "L": "aug", "d": d, "v": g.value()}),
            _ => json!({"op": "copy", "d": d, "t": d2}),
        },
    }
}
