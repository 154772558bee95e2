//! Builders and slices, one operation at a time.
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};

use num_bigint::{BigInt, BigUint, Sign};
use tycho_types::cell::{CellRefsBuilder, CellSliceParts, CellSliceRange, Load, Store};
use tycho_types::error::Error;
use tycho_types::prelude::*;
use tycho_types::util::Bitstring;

use crate::util::*;

pub struct M {
    b: [CellBuilder; 3],
    s: [CellSliceParts; 4],
    it: Interner,
}

fn same_b(a: &CellBuilder, b: &CellBuilder) -> bool {
    a.raw_data() == b.raw_data() && a.size() == b.size() && a.is_exotic() == b.is_exotic() && a.references() == b.references()
}
fn rng_id(p: &CellSliceParts) -> (u16, u16, u8, u8, usize) {
    let r = p.0;
    (r.offset_bits(), r.size_bits(), r.offset_refs(), r.size_refs(), Cell::as_ref(&p.1) as *const DynCell as *const () as usize)
}
fn view_range(r: CellSliceRange) -> Json {
    json!([r.offset_bits(), r.size_bits(), r.offset_refs(), r.size_refs()])
}
fn int_json(x: &BigInt) -> Json {
    let m = x.magnitude().to_str_radix(2);
    json!([if x.sign() == Sign::Minus { "-" } else { "+" }, if m == "0" { "" } else { &m }])
}
fn big(op: &Json) -> BigInt {
    if !op["pow"].is_null() {
        return BigInt::from(1) << ju(&op["pow"]);
    }
    let x = &op["x"];
    let m = BigUint::parse_bytes(format!("0{}", js(&x[1])).as_bytes(), 2).unwrap();
    BigInt::from_biguint(if js(&x[0]) == "-" { Sign::Minus } else { Sign::Plus }, m)
}
fn ord(o: std::cmp::Ordering) -> i32 {
    o as i32
}

type T2 = (u8, u32);
type T3 = (bool, u16, Cell);
type T4 = (i64, HashBytes, i8, Cell);

/// (name, bits, refs) of the types with a codec of their own.
const TYPES: &[(&str, u16, u8)] = &[
    ("bool", 1, 0), ("u8", 8, 0), ("i8", 8, 0), ("u16", 16, 0), ("i16", 16, 0), ("u32", 32, 0), ("i32", 32, 0),
    ("u64", 64, 0), ("i64", 64, 0), ("u128", 128, 0), ("i128", 128, 0), ("hash", 256, 0), ("cell", 0, 1), ("unit", 0, 0),
    ("t2", 40, 0), ("t3", 17, 1), ("t4", 328, 1), ("z8", 8, 0), ("z16", 16, 0), ("z32", 32, 0),
    ("o16", 16, 0), ("ohash", 256, 0), ("ocell", 0, 1), ("ot2", 40, 0), ("obool", 1, 0), ("box", 64, 0), ("arc", 17, 1),
];

impl M {
    pub fn new() -> Self {
        M { b: Default::default(), s: Default::default(), it: Interner::default() }
    }
    fn bview(&mut self, i: usize) -> Json {
        let b = &self.b[i];
        let n = b.size_bits();
        let bits = bytes_to_bits(b.raw_data(), n as usize);
        let refs: Vec<usize> = b.references().to_vec().iter().map(|c| self.it.add(c)).collect();
        let mut fresh = CellBuilder::new();
        store_bits(&mut fresh, &bits).unwrap();
        for c in self.b[i].references() {
            fresh.store_reference(c.clone()).unwrap();
        }
        fresh.set_exotic(self.b[i].is_exotic());
        json!([bits, refs, self.b[i].is_exotic() as u8, fresh == self.b[i]])
    }
    fn done_b(&mut self, i: usize, old: &CellBuilder, r: Result<(), Error>) -> Json {
        match r {
            Ok(()) => {
                let v = self.bview(i);
                json!(["ok", v])
            }
            Err(e) => {
                let same = same_b(old, &self.b[i]);
                json!(["err", err(&e)[1], if same { "same" } else { "changed" }])
            }
        }
    }
    fn typed_store(b: &mut CellBuilder, t: &str, v: &str, cs: &[Cell]) -> Result<(), Error> {
        let cx = Cell::empty_context();
        let n = bits_u128(v);
        let hash = |s: &str| HashBytes::from_slice(&bits_to_bytes(s));
        macro_rules! st {
            ($v:expr) => {
                $v.store_into(b, cx)
            };
        }
        let opt = v.starts_with('1');
        let rest = v.get(1..).unwrap_or("");
        match t {
            "bool" => st!((n == 1)),
            "u8" => st!((n as u8)),
            "i8" => st!((n as i8)),
            "u16" => st!((n as u16)),
            "i16" => st!((n as i16)),
            "u32" => st!((n as u32)),
            "i32" => st!((n as i32)),
            "u64" => st!((n as u64)),
            "i64" => st!((n as i64)),
            "u128" => st!(n),
            "i128" => st!((n as i128)),
            "hash" => st!(hash(v)),
            "cell" => st!(cs[0]),
            "unit" => st!(()),
            "t2" => st!((bits_u64(&v[..8]) as u8, bits_u64(&v[8..]) as u32)),
            "t3" => st!((&v[..1] == "1", bits_u64(&v[1..]) as u16, cs[0].clone())),
            "t4" => st!((bits_u64(&v[..64]) as i64, hash(&v[64..320]), bits_u64(&v[320..]) as i8, cs[0].clone())),
            "z8" | "z16" | "z32" => match t {
                "z8" => st!((n as u8)),
                "z16" => st!((n as u16)),
                _ => st!((n as u32)),
            },
            "o16" => st!(opt.then(|| bits_u64(rest) as u16)),
            "ohash" => st!(opt.then(|| hash(rest))),
            "ocell" => st!(opt.then(|| cs[0].clone())),
            "ot2" => st!(opt.then(|| (bits_u64(&rest[..8]) as u8, bits_u64(&rest[8..]) as u32))),
            "obool" => st!(opt.then(|| rest == "1")),
            "box" => st!(Box::new(n as u64)),
            _ => st!(std::sync::Arc::new((&v[..1] == "1", bits_u64(&v[1..]) as u16, cs[0].clone()))),
        }
    }
    fn typed_load(it: &mut Interner, s: &mut CellSlice<'_>, t: &str) -> Result<Json, Error> {
        let n = |v: u128, w: usize| json!([u128_bits(v, w), []]);
        let h = |v: &HashBytes| bytes_to_bits(v.as_slice(), 256);
        let o = |v: Option<String>| json!([v.map_or("0".into(), |v| format!("1{v}")), []]);
        let t2 = |v: T2| format!("{}{}", u128_bits(v.0 as u128, 8), u128_bits(v.1 as u128, 32));
        Ok(match t {
            "bool" => n(bool::load_from(s)? as u128, 1),
            "u8" => n(u8::load_from(s)? as u128, 8),
            "i8" => n(i8::load_from(s)? as u8 as u128, 8),
            "u16" => n(u16::load_from(s)? as u128, 16),
            "i16" => n(i16::load_from(s)? as u16 as u128, 16),
            "u32" => n(u32::load_from(s)? as u128, 32),
            "i32" => n(i32::load_from(s)? as u32 as u128, 32),
            "u64" => n(u64::load_from(s)? as u128, 64),
            "i64" => n(i64::load_from(s)? as u64 as u128, 64),
            "u128" => n(u128::load_from(s)?, 128),
            "i128" => n(i128::load_from(s)? as u128, 128),
            "hash" => json!([h(&HashBytes::load_from(s)?), []]),
            "cell" => json!(["", [it.add(&Cell::load_from(s)?)]]),
            "unit" => {
                <()>::load_from(s)?;
                json!(["", []])
            }
            "t2" => json!([t2(T2::load_from(s)?), []]),
            "t3" => {
                let v = T3::load_from(s)?;
                json!([format!("{}{}", v.0 as u8, u128_bits(v.1 as u128, 16)), [it.add(&v.2)]])
            }
            "t4" => {
                let v = T4::load_from(s)?;
                json!([format!("{}{}{}", u128_bits(v.0 as u64 as u128, 64), h(&v.1), u128_bits(v.2 as u8 as u128, 8)), [it.add(&v.3)]])
            }
            "z8" => n(NonZeroU8::load_from(s)?.get() as u128, 8),
            "z16" => n(NonZeroU16::load_from(s)?.get() as u128, 16),
            "z32" => n(NonZeroU32::load_from(s)?.get() as u128, 32),
            "o16" => o(Option::<u16>::load_from(s)?.map(|v| u128_bits(v as u128, 16))),
            "ohash" => o(Option::<HashBytes>::load_from(s)?.map(|v| h(&v))),
            "ocell" => match Option::<Cell>::load_from(s)? {
                Some(c) => json!(["1", [it.add(&c)]]),
                None => json!(["0", []]),
            },
            "ot2" => o(Option::<T2>::load_from(s)?.map(t2)),
            "obool" => o(Option::<bool>::load_from(s)?.map(|v| (v as u8).to_string())),
            "box" => n(*Box::<u64>::load_from(s)? as u128, 64),
            _ => {
                let v = std::sync::Arc::<T3>::load_from(s)?;
                json!([format!("{}{}", v.0 as u8, u128_bits(v.1 as u128, 16)), [it.add(&v.2)]])
            }
        })
    }

    fn builder_op(&mut self, op: &Json) -> Option<Json> {
        let i = ju(&op["b"]);
        let old = self.b[i].clone();
        let v = js(&op["v"]);
        let n = ju(&op["n"]) as u16;
        let alt = jb(&op["alt"]);
        let cell = |it: &Interner| it.get(ju(&op["c"]));
        let r = match js(&op["op"]) {
            "zeros" => self.b[i].store_zeros(n),
            "ones" => self.b[i].store_ones(n),
            "store" => {
                let b = &mut self.b[i];
                let x = bits_u128(v);
                match v.len() {
                    1 if alt && x == 1 => b.store_bit_one(),
                    1 if alt => b.store_bit_zero(),
                    1 => b.store_bit(x == 1),
                    8 => b.store_u8(x as u8),
                    16 => b.store_u16(x as u16),
                    32 => b.store_u32(x as u32),
                    64 => b.store_u64(x as u64),
                    128 => b.store_u128(x),
                    256 => b.store_u256(&HashBytes::from_slice(&bits_to_bytes(v))),
                    _ => return None,
                }
            }
            "small" => self.b[i].store_small_uint(bits_u64(v) as u8, n),
            "uint" => self.b[i].store_uint(bits_u64(v), n),
            "raw" => self.b[i].store_raw(&bits_to_bytes(v), n),
            "big" => {
                let x = big(op);
                let (b, sg) = (&mut self.b[i], jb(&op["signed"]));
                match (alt, jb(&op["trunc"])) {
                    (false, false) => b.store_bigint(&x, n, sg),
                    (false, true) => b.store_bigint_truncate(&x, n, sg),
                    (true, false) => b.store_biguint(x.magnitude(), n, sg),
                    (true, true) => b.store_biguint_truncate(x.magnitude(), n),
                }
            }
            "varbig" => {
                let x = big(op);
                if alt { self.b[i].store_var_biguint(x.magnitude(), n) } else { self.b[i].store_var_bigint(&x, n, jb(&op["signed"])) }
            }
            "celldata" => {
                let c = cell(&self.it);
                self.b[i].store_cell_data(&c)
            }
            "slicedata" | "slice" => {
                let p = self.s[ju(&op["s"])].clone();
                let s = p.0.apply_allow_exotic(&p.1);
                match js(&op["op"]) {
                    "slice" if alt => s.store_into(&mut self.b[i], Cell::empty_context()),
                    "slice" => self.b[i].store_slice(s),
                    _ => self.b[i].store_slice_data(s),
                }
            }
            "builder" => {
                let o = self.b[ju(&op["b2"])].clone();
                if alt { o.store_into(&mut self.b[i], Cell::empty_context()) } else { self.b[i].store_builder(&o) }
            }
            "bslice" => {
                let o = self.b[ju(&op["b2"])].clone();
                let s = if jb(&op["full"]) { o.as_full_slice() } else { o.as_data_slice() };
                self.b[i].store_slice(s)
            }
            "ref" => {
                let c = cell(&self.it);
                self.b[i].store_reference(c)
            }
            "typed" => {
                let cs: Vec<Cell> = op["cs"].as_array().unwrap().iter().map(|x| self.it.get(ju(x))).collect();
                let r = Self::typed_store(&mut self.b[i], js(&op["t"]), v, &cs);
                if r.is_err() {
                    self.b[i] = old.clone();
                }
                r
            }
            "setrefs" => {
                let mut rb = CellRefsBuilder::default();
                for c in op["cs"].as_array().unwrap() {
                    rb.store_reference(self.it.get(ju(c))).unwrap();
                }
                if alt {
                    let (x, d, _) = self.b[i].clone().into_parts();
                    self.b[i] = CellBuilder::from_parts(x, d, rb);
                } else {
                    self.b[i].set_references(rb);
                }
                Ok(())
            }
            "prepend" => self.b[i].prepend_raw(&bits_to_bytes(v), n),
            "rewind" => self.b[i].rewind_bits(n),
            "clear" => {
                self.b[i].clear_bits();
                Ok(())
            }
            "exotic" => {
                self.b[i].set_exotic(n == 1);
                Ok(())
            }
            "newb" => {
                self.b[i] = CellBuilder::new();
                Ok(())
            }
            "copyb" => {
                self.b[i] = self.b[ju(&op["b2"])].clone();
                Ok(())
            }
            "fromraw" => match CellBuilder::from_raw_data(&bits_to_bytes(v), n) {
                Ok(b) => {
                    self.b[i] = b;
                    Ok(())
                }
                Err(e) => Err(e),
            },
            "capacity" => {
                let rn = ju(&op["rn"]) as u8;
                let b = &self.b[i];
                let sp = b.spare_capacity();
                assert_eq!((sp.bits, sp.refs), (b.spare_capacity_bits(), b.spare_capacity_refs()));
                let sz = b.size();
                assert_eq!((sz.bits, sz.refs), (b.size_bits(), b.size_refs()));
                return Some(json!(["ok", b.has_capacity(n, rn), b.has_capacity_bits(n), sp.bits, sp.refs, sz.bits, sz.refs]));
            }
            "beq" => {
                let (a, b) = (&self.b[i], &self.b[ju(&op["b2"])]);
                let (da, db): (&tycho_types::cell::CellDataBuilder, &tycho_types::cell::CellDataBuilder) = (a.as_ref(), b.as_ref());
                return Some(json!(["ok", a == b, ord(a.cmp(b)), da == db, ord(da.cmp(db))]));
            }
            "bshow" => {
                let d = self.b[i].display_data();
                assert_eq!(format!("{d:X}").to_lowercase(), format!("{d}"));
                return Some(json!(["ok", format!("{d:x}"), format!("{d:b}")]));
            }
            "build" => {
                let c = match self.b[i].clone().build() {
                    Ok(c) => c,
                    Err(e) => return Some(json!(["err", err(&e)[1], "same"])),
                };
                let k = ju(&op["s"]);
                if !self.b[i].is_exotic() {
                    self.s[k] = (CellSliceRange::full(&c), c.clone());
                }
                return Some(json!(["ok", self.it.add(&c)]));
            }
            _ => return None,
        };
        Some(self.done_b(i, &old, r))
    }

    fn slice_op(&mut self, op: &Json) -> Json {
        let k = ju(&op["s"]);
        let p = self.s[k].clone();
        let keep = rng_id(&p);
        let mut s = p.0.apply_allow_exotic(&p.1);
        let n = ju(&op["n"]) as u16;
        let rn = ju(&op["rn"]) as u8;
        let o = ju(&op["o"]) as u16;
        let ld = jb(&op["ld"]);
        let alt = jb(&op["alt"]);
        let sg = jb(&op["signed"]);
        let bits = |r: u128, w: u16| json!(u128_bits(r, w as usize));
        let it = &mut self.it;
        let mut range = None;
        let r: Result<Json, Error> = match js(&op["op"]) {
            "mk" => {
                let c = it.get(ju(&op["c"]));
                let r = if jb(&op["allow"]) {
                    Ok(if alt { CellSlice::new_allow_exotic(c.as_ref()).range() } else { c.as_slice_allow_exotic().range() })
                } else if alt {
                    CellSlice::new(c.as_ref()).map(|s| s.range())
                } else {
                    c.as_slice().map(|s| s.range())
                };
                match r {
                    Ok(r) => {
                        self.s[k] = (r, c);
                        return json!(["ok", 0, view_range(self.s[k].0)]);
                    }
                    Err(e) => return json!(["err", err(&e)[1], "same"]),
                }
            }
            "default" => {
                self.s[k] = Default::default();
                let d = CellSlice::default().range();
                return json!(["ok", 0, view_range(d)]);
            }
            "apply" => {
                let c = it.get(ju(&op["c"]));
                match p.0.apply(&c) {
                    Ok(s) => {
                        let r = s.range();
                        self.s[k] = (r, c.clone());
                        return json!(["ok", 0, view_range(r)]);
                    }
                    Err(e) => Err(e),
                }
            }
            "copys" => {
                self.s[k] = self.s[ju(&op["s2"])].clone();
                return json!(["ok", 0, view_range(self.s[k].0)]);
            }
            "read" => match (n, ld) {
                (1, true) => s.load_bit().map(|x| bits(x as u128, 1)),
                (1, false) => s.get_bit(o).map(|x| bits(x as u128, 1)),
                (8, true) => s.load_u8().map(|x| bits(x as u128, 8)),
                (8, false) => s.get_u8(o).map(|x| bits(x as u128, 8)),
                (16, true) => s.load_u16().map(|x| bits(x as u128, 16)),
                (16, false) => s.get_u16(o).map(|x| bits(x as u128, 16)),
                (32, true) => s.load_u32().map(|x| bits(x as u128, 32)),
                (32, false) => s.get_u32(o).map(|x| bits(x as u128, 32)),
                (64, true) => s.load_u64().map(|x| bits(x as u128, 64)),
                (64, false) => s.get_u64(o).map(|x| bits(x as u128, 64)),
                (128, true) => s.load_u128().map(|x| bits(x, 128)),
                (128, false) => s.get_u128(o).map(|x| bits(x, 128)),
                (_, true) => s.load_u256().map(|x| json!(bytes_to_bits(x.as_slice(), 256))),
                (_, false) => s.get_u256(o).map(|x| json!(bytes_to_bits(x.as_slice(), 256))),
            },
            "rsmall" => if ld { s.load_small_uint(n) } else { s.get_small_uint(o, n) }.map(|x| {
                if n < 8 && x >> n != 0 { json!("high bits set") } else { bits(x as u128, n) }
            }),
            "ruint" => if ld { s.load_uint(n) } else { s.get_uint(o, n) }.map(|x| {
                if n < 64 && x >> n != 0 { json!("high bits set") } else { bits(x as u128, n) }
            }),
            "rraw" => {
                let mut buf = vec![0xa5u8; ju(&op["buf"])];
                if ld { s.load_raw(&mut buf, n) } else { s.get_raw(o, &mut buf, n) }
                    .map(|x| json!(bytes_to_bits(x, x.len() * 8)))
            }
            "rbig" => if alt {
                s.load_biguint(n).map(|x| int_json(&BigInt::from(x)))
            } else {
                s.load_bigint(n, sg).map(|x| int_json(&x))
            },
            "rvarbig" => if alt {
                s.load_var_biguint(n).map(|x| int_json(&BigInt::from(x)))
            } else {
                s.load_var_bigint(n, sg).map(|x| int_json(&x))
            },
            "rtyped" => match Self::typed_load(it, &mut s, js(&op["t"])) {
                Ok(v) => Ok(v),
                Err(e) => {
                    self.s[k] = Default::default();
                    return json!(["err", err(&e)[1], "?"]);
                }
            },
            "skipfirst" => s.skip_first(n, rn).map(|_| json!(0)),
            "onlyfirst" => s.only_first(n, rn).map(|_| json!(0)),
            "skiplast" => s.skip_last(n, rn).map(|_| json!(0)),
            "onlylast" => s.only_last(n, rn).map(|_| json!(0)),
            "prefix" | "suffix" => {
                let pre = js(&op["op"]) == "prefix";
                let r = if alt {
                    let mut r = s.range();
                    let x = if pre { r.split_prefix(n, rn) } else { r.split_suffix(n, rn) };
                    range = Some(r);
                    x
                } else {
                    if pre { s.load_prefix(n, rn) } else { s.load_suffix(n, rn) }.map(|x| x.range())
                };
                r.map(|x| {
                    self.s[ju(&op["s2"])] = (x, p.1.clone());
                    view_range(x)
                })
            }
            "rest" => {
                let x = s.load_remaining();
                self.s[ju(&op["s2"])] = (x.range(), p.1.clone());
                Ok(view_range(x.range()))
            }
            "getprefix" => {
                s = s.get_prefix(n, rn);
                Ok(json!(0))
            }
            "norefs" => {
                s = s.without_references();
                Ok(json!(0))
            }
            "rref" => {
                let i = ju(&op["n"]) as u8;
                if jb(&op["slice"]) {
                    let x = if ld { s.load_reference_as_slice() } else { s.get_reference_as_slice(i) };
                    match x {
                        Ok(x) => {
                            let c = p.1.reference_cloned(if ld { p.0.offset_refs() } else { p.0.offset_refs() + i }).unwrap();
                            let id = it.add(&c);
                            let c = it.get(id);
                            assert_eq!(x.cell().repr_hash(), c.repr_hash());
                            self.s[ju(&op["s2"])] = (x.range(), c);
                            Ok(view_range(x.range()))
                        }
                        Err(e) => Err(e),
                    }
                } else if alt {
                    if ld { s.load_reference_cloned() } else { s.get_reference_cloned(i) }.map(|c| json!(it.add(&c)))
                } else {
                    let x = if ld { s.load_reference() } else { s.get_reference(i) };
                    match x {
                        Ok(x) => {
                            let h = *x.repr_hash();
                            let i = it.cells.iter().position(|c| *c.repr_hash() == h).map_or(0, |i| i + 1);
                            Ok(json!(i))
                        }
                        Err(e) => Err(e),
                    }
                }
            }
            "refs" => {
                let a: Vec<usize> = s.references().cloned().map(|c| it.add(&c)).collect();
                let c: Vec<usize> = s.references().rev().map(|c| {
                    let h = *c.repr_hash();
                    it.cells.iter().position(|c| *c.repr_hash() == h).map_or(0, |i| i + 1)
                }).collect();
                let mut b = Vec::new();
                let mut i = s.into_references();
                while let Some(c) = i.peek_cloned() {
                    assert!(i.peek().is_some());
                    b.push(it.add(&c));
                    i.next().unwrap();
                }
                Ok(json!([a, b, c, s.references().len()]))
            }
            "info" => Ok(json!([s.has_remaining(n, rn), s.is_empty(), s.is_data_empty(), s.is_refs_empty(), s.is_full()])),
            "content" => {
                let (bits, refs) = (slice_bits(&s), s.references().cloned().map(|c| it.add(&c)).collect::<Vec<_>>());
                assert_eq!(format!("{:X}", s.display_data()).to_lowercase(), format!("{}", s.display_data()));
                Ok(json!([bits, refs, format!("{:x}", s.display_data()), format!("{:b}", s.display_data())]))
            }
            "pair" => {
                let q = self.s[ju(&op["s2"])].clone();
                let u = q.0.apply_allow_exotic(&q.1);
                (|| {
                    Ok(json!([
                        ord(s.lex_cmp(&u)?),
                        s.contents_eq(&u)?,
                        s.is_data_prefix_of(&u)?,
                        s.is_data_suffix_of(&u)?,
                        s.strip_data_prefix(&u).map_or(json!([]), |x| json!([view_range(x.range())])),
                        view_range({
                            let x = s.longest_common_data_prefix(&u);
                            x.range()
                        })
                    ]))
                })()
            }
            "scan" => (|| {
                Ok(json!([
                    s.count_leading(false)?,
                    s.count_leading(true)?,
                    s.count_trailing(false)?,
                    s.count_trailing(true)?,
                    s.test_uniform().map_or(json!([]), |b| json!([(b as u8).to_string()]))
                ]))
            })(),
            "parse" => {
                let r = Bitstring::from_hex_str(js(&op["t"]));
                return match r {
                    Ok((d, n)) => json!(["ok", n, bytes_to_bits(&d, d.len() * 8)]),
                    Err(e) => json!(["err", err(&e)[1], "same"]),
                };
            }
            x => return json!(["tool", x]),
        };
        let r2 = range.unwrap_or(s.range());
        match r {
            Ok(v) => {
                // a destination register may be the source register: the source wins
                self.s[k] = (r2, p.1);
                json!(["ok", v, view_range(r2)])
            }
            Err(e) => {
                let same = rng_id(&(r2, p.1)) == keep;
                json!(["err", err(&e)[1], if same { "same" } else { "changed" }])
            }
        }
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match self.builder_op(op) {
            Some(r) => r,
            None => self.slice_op(op),
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    let mut m = M::new();
    if !cfg["cells"].is_null() {
        m.it = Interner::load(&cfg["cells"]);
    }
    let mut ev = Vec::new();
    for op in ops {
        let mut op = op.clone();
        op["r"] = m.run(&op);
        ev.push(op);
    }
    finish(cfg.clone(), m, ev)
}
fn finish(mut cfg: Json, m: M, ev: Vec<Json>) -> Trace {
    cfg["hash"] = hashes(&m.it);
    Trace { cfg, cells: m.it.table, ev }
}

/// A width: small, exactly what is there, one more, or absurd.
fn width(r: &mut Rng, left: usize) -> usize {
    match r.below(14) {
        0 => left,
        1 => left + 1,
        2 => left.saturating_sub(1),
        3 => *r.pick(&[1023, 1024, 1025, 2048, 32767, 32768, 65535, 65534, 65535 - 1022, 65536 - 1000]),
        4 => 65536usize.saturating_sub(r.range(1, 1100)),
        5..=7 => r.below(18),
        8 | 9 => *r.pick(&[8, 16, 32, 63, 64, 65, 128, 256, 120, 248]),
        10 => r.below(257),
        _ => r.below(left + 1),
    }
}

fn some_int(r: &mut Rng, signed: bool) -> Json {
    let n = *r.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 31, 63, 64, 65, 120, 127, 128, 129, 247, 248, 255, 256, 257, 300, 1016, 1023]);
    let n = if r.flip() { r.below(n + 2) } else { n };
    let m = match r.below(5) {
        0 => "1".repeat(n),
        1 if n > 0 => format!("1{}", "0".repeat(n - 1)),
        2 if n > 0 => format!("1{}", r.runs(n - 1)),
        _ if n > 0 => format!("1{}", r.bits(n - 1)),
        _ => String::new(),
    };
    json!([if signed && n > 0 && r.flip() { "-" } else { "+" }, m])
}

fn gen_build(r: &mut Rng, m: &M, cells: usize) -> Json {
    let i = r.below(3);
    let left = 1023 - m.b[i].size_bits() as usize;
    let n = width(r, left);
    let b2 = (i + 1 + r.below(2)) % 3;
    let alt = r.flip();
    let c = 1 + r.below(cells);
    let s = r.below(4);
    match r.below(37) {
        0 => json!({"op": "zeros", "b": i, "n": n}),
        1 => json!({"op": "ones", "b": i, "n": n}),
        2 => json!({"op": "store", "b": i, "v": r.bits(1), "alt": alt}),
        3..=6 => {
            let w = *r.pick(&[1usize, 8, 16, 32, 64, 128, 256]);
            json!({"op": "store", "b": i, "v": r.mixed_bits(w), "alt": alt})
        }
        7 => json!({"op": "small", "b": i, "v": r.mixed_bits(8), "n": if r.flip() { r.below(10) } else { n }}),
        8 | 9 => json!({"op": "uint", "b": i, "v": r.mixed_bits(64), "n": if r.flip() { r.below(67) } else { n }}),
        10..=12 => {
            let l = match r.below(12) { 0 => 8192 + r.below(4), 1 => 8192 / 8 + 8, 2 => 0, _ => n.min(1100).div_ceil(8).saturating_add_signed(r.below(3) as isize - 1) };
            json!({"op": "raw", "b": i, "v": r.mixed_bits(l * 8), "n": n})
        }
        13 | 14 => {
            let sg = r.flip();
            let x = some_int(r, sg);
            let alt = alt && js(&x[0]) == "+";
            let trunc = r.flip();
            if r.chance(1, 40) {
                return json!({"op": "big", "b": i, "pow": 65536 + r.below(9), "n": n, "signed": sg, "trunc": trunc, "alt": alt});
            }
            json!({"op": "big", "b": i, "x": x, "n": if r.flip() { js(&x[1]).len().min(2000) + r.below(3) } else { n }, "signed": sg, "trunc": trunc, "alt": alt})
        }
        15 => {
            let sg = !alt && r.flip();
            let x = some_int(r, sg);
            if r.chance(1, 40) {
                return json!({"op": "varbig", "b": i, "pow": 65536 + r.below(9), "n": 4 + r.below(20), "signed": sg, "alt": alt});
            }
            let n = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 20, 100, n]);
            json!({"op": "varbig", "b": i, "x": x, "n": n, "signed": sg, "alt": alt && js(&x[0]) == "+"})
        }
        16 => json!({"op": "celldata", "b": i, "c": c}),
        17 | 18 => json!({"op": "slicedata", "b": i, "s": s}),
        19 | 20 => json!({"op": "slice", "b": i, "s": s, "alt": alt}),
        21 => json!({"op": "builder", "b": i, "b2": b2, "alt": alt}),
        22 => json!({"op": "bslice", "b": i, "b2": b2, "full": r.flip()}),
        23 => json!({"op": "ref", "b": i, "c": c}),
        24 => {
            let (t, w, k) = *r.pick(TYPES);
            let mut v = r.mixed_bits(w as usize);
            let mut cs: Vec<usize> = (0..k).map(|_| 1 + r.below(cells)).collect();
            if t.starts_with('o') {
                if r.flip() {
                    v = format!("1{v}");
                } else {
                    v = "0".into();
                    cs.clear();
                }
            }
            json!({"op": "typed", "b": i, "t": t, "v": v, "cs": cs})
        }
        25 => {
            let k = r.below(5);
            json!({"op": "setrefs", "b": i, "cs": (0..k).map(|_| 1 + r.below(cells)).collect::<Vec<_>>(), "alt": alt})
        }
        26 | 27 => {
            let l = n.min(1100).div_ceil(8).saturating_add_signed(r.below(3) as isize - 1);
            json!({"op": "prepend", "b": i, "v": r.mixed_bits(l * 8), "n": if r.flip() { n } else { r.below(30) }})
        }
        28 | 29 => {
            let sz = 1023 - left;
            let n = match r.below(6) { 0 => sz + 1, 1 => sz, 2 => n, _ => r.below(sz + 1) };
            json!({"op": "rewind", "b": i, "n": n})
        }
        30 => match r.below(4) {
            0 => json!({"op": "clear", "b": i}),
            1 => json!({"op": "newb", "b": i}),
            2 => json!({"op": "exotic", "b": i, "n": r.below(2)}),
            _ => json!({"op": "copyb", "b": i, "b2": b2}),
        },
        31 => {
            let l = r.below(140);
            json!({"op": "fromraw", "b": i, "v": r.bits(l * 8), "n": if r.flip() { n } else { (l * 8).saturating_sub(r.below(9)) }})
        }
        32 => json!({"op": "capacity", "b": i, "n": n, "rn": *r.pick(&[0, 1, 2, 3, 4, 5, 252, 255])}),
        33 => json!({"op": "beq", "b": i, "b2": b2}),
        34 => json!({"op": "bshow", "b": i}),
        35 => json!({"op": "build", "b": i, "s": s}),
        _ => json!({"op": "skipfirst", "s": s, "n": r.below(9), "rn": 0}),
    }
}

fn gen_slice(r: &mut Rng, m: &M, cells: usize) -> Json {
    let s = r.below(4);
    let s2 = (s + 1 + r.below(3)) % 4;
    let left = m.s[s].0.size_bits() as usize;
    let n = width(r, left);
    let rl = m.s[s].0.size_refs() as usize;
    let rn = match r.below(6) { 0 => rl, 1 => rl + 1, 2 => *r.pick(&[252, 253, 254, 255]), 3 => 0, _ => r.below(rl + 1) };
    let (n1, rn1) = match r.below(5) { 0 => (n, 0), 1 => (0, rn), _ => (n, rn) };
    // moves that keep something to look at
    let (nm, rnm) = if r.chance(2, 3) { (r.below(1 + left / 3), r.below(1 + rl / 2)) } else { (n1, rn1) };
    let alt = r.flip();
    let ld = r.flip();
    let o = |r: &mut Rng, n: usize| -> usize {
        match r.below(8) {
            0 => left.saturating_sub(n),
            1 => left.saturating_sub(n) + 1,
            2 => width(r, left),
            3 => 65536usize.saturating_sub(n).saturating_sub(r.below(left + 2)).min(65535),
            4 => 0,
            _ => r.below(left.saturating_sub(n) + 1),
        }
    };
    match r.below(35) {
        0..=2 => json!({"op": "mk", "s": s, "c": 1 + r.below(cells), "allow": r.chance(3, 4), "alt": alt}),
        3 if r.chance(1, 4) => json!({"op": "default", "s": s}),
        3 => json!({"op": "apply", "s": s, "c": 1 + r.below(cells)}),
        4 => json!({"op": "copys", "s": s, "s2": s2}),
        5..=8 => {
            let w = *r.pick(&[1usize, 8, 16, 32, 64, 128, 256]);
            json!({"op": "read", "s": s, "n": w, "o": if ld { 0 } else { o(r, w) }, "ld": ld})
        }
        9 | 10 => {
            let w = if r.chance(1, 6) { n } else { r.below(10) };
            json!({"op": "rsmall", "s": s, "n": w, "o": if ld { 0 } else { o(r, w) }, "ld": ld})
        }
        11 | 12 => {
            let w = if r.chance(1, 6) { n } else { r.below(67) };
            json!({"op": "ruint", "s": s, "n": w, "o": if ld { 0 } else { o(r, w) }, "ld": ld})
        }
        13 | 14 => {
            let buf = match r.below(4) { 0 => 128, 1 => n.min(1200).div_ceil(8).saturating_sub(1), 2 => n.min(1200).div_ceil(8), _ => 200 };
            json!({"op": "rraw", "s": s, "n": n, "o": if ld { 0 } else { o(r, n) }, "ld": ld, "buf": buf})
        }
        15 | 16 => json!({"op": "rbig", "s": s, "n": n, "signed": !alt && r.flip(), "alt": alt}),
        17 => {
            let n = if r.chance(1, 4) { n } else { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 64]) };
            json!({"op": "rvarbig", "s": s, "n": n, "signed": !alt && r.flip(), "alt": alt})
        }
        18 => {
            let (t, w, k) = *r.pick(TYPES);
            json!({"op": "rtyped", "s": s, "t": t, "n": w, "rn": k})
        }
        19 => json!({"op": "skipfirst", "s": s, "n": nm, "rn": rnm}),
        20 => json!({"op": "onlyfirst", "s": s, "n": if r.flip() { left - nm.min(left) } else { nm }, "rn": if r.flip() { rl - rnm.min(rl) } else { rnm }}),
        21 => json!({"op": "skiplast", "s": s, "n": nm, "rn": rnm}),
        22 => json!({"op": "onlylast", "s": s, "n": if r.flip() { left - nm.min(left) } else { nm }, "rn": if r.flip() { rl - rnm.min(rl) } else { rnm }}),
        23 => json!({"op": "prefix", "s": s, "s2": s2, "n": nm, "rn": rnm, "alt": alt}),
        24 => json!({"op": "suffix", "s": s, "s2": s2, "n": nm, "rn": rnm, "alt": alt}),
        25 => match r.below(4) {
            0 => json!({"op": "rest", "s": s, "s2": s2}),
            1 => json!({"op": "norefs", "s": s}),
            _ => json!({"op": "getprefix", "s": s, "n": if r.flip() { left - nm.min(left) } else { n }, "rn": if r.flip() { rl } else { rn }}),
        },
        26 | 27 => json!({"op": "rref", "s": s, "s2": s2, "n": rn, "ld": ld, "slice": r.flip(), "alt": alt}),
        28 => json!({"op": "refs", "s": s}),
        29 => json!({"op": "info", "s": s, "n": n, "rn": rn}),
        30 => json!({"op": "content", "s": s}),
        31 | 32 => json!({"op": "pair", "s": s, "s2": s2}),
        33 => json!({"op": "scan", "s": s}),
        _ => {
            let k = *r.pick(&[0usize, 1, 2, 3, 5, 8, 30, 254, 255, 256, 257]);
            let k = if r.flip() { r.below(k + 1) } else { k };
            let h: String = (0..k).map(|_| *r.pick(&['0', '8', 'f', '4', '1', 'c', 'e', 'a', '0'])).collect();
            let tag = r.flip();
            let junk = r.chance(1, 6);
            let mut t = if alt { h.to_uppercase() } else { h.clone() };
            if tag {
                t.push('_');
            }
            if junk {
                let at = r.below(t.len() + 1);
                t.insert_str(at, r.pick(&["g", " ", "é", "-", "x", "\u{0}", "_0"]));
            }
            json!({"op": "parse", "h": h, "tag": tag, "junk": junk, "t": t})
        }
    }
}

/// Payload cells of many shapes, some exotic, some that differ only late.
fn payload(r: &mut Rng) -> Vec<Json> {
    let mut it = Interner::default();
    for _ in 0..2 {
        it.add(&rand_cell(r, 1, 60));
    }
    it.add(&CellBuilder::build_library(&HashBytes(r.hash())));
    let base = {
        let n = r.below(1000);
        r.mixed_bits(n)
    };
    for _ in 0..6 {
        let mut v = match r.below(4) {
            0 => base.clone(),
            1 => {
                let n = *r.pick(&[0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 200, 256, 300, 1016, 1022, 1023]);
                r.mixed_bits(n)
            }
            2 => {
                let n = r.below(1024);
                r.runs(n)
            }
            _ => {
                let k = r.below(20);
                let n = r.below(1023 - k.min(1000));
                let mut x = r.bits(k);
                x.push_str(&"01".chars().nth(r.below(2)).unwrap().to_string().repeat(n));
                x
            }
        };
        if r.chance(1, 3) && !v.is_empty() {
            let i = r.below(v.len());
            let c = if &v[i..i + 1] == "1" { "0" } else { "1" };
            v.replace_range(i..i + 1, c);
        }
        let k = r.below(5);
        let mut b = CellBuilder::new();
        store_bits(&mut b, &v).unwrap();
        for _ in 0..k {
            let i = 1 + r.below(it.table.len());
            b.store_reference(it.get(i)).unwrap();
        }
        it.add(&b.build().unwrap());
    }
    it.table
}

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let table = payload(&mut r);
    let cells = table.len();
    let cfg = json!({"cells": table});
    let mut m = M::new();
    m.it = Interner::load(&cfg["cells"]);
    let mut ev = Vec::new();
    for s in 0..4 {
        let mut op = json!({"op": "mk", "s": s, "c": 1 + r.below(cells), "allow": true, "alt": false});
        op["r"] = m.run(&op);
        ev.push(op);
    }
    for _ in 0..len {
        let mut op = if (sel == "build") == r.chance(5, 6) { gen_build(&mut r, &m, cells) } else { gen_slice(&mut r, &m, cells) };
        op["r"] = m.run(&op);
        ev.push(op);
    }
    finish(cfg, m, ev)
}
