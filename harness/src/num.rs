//! Number types: encodings, arithmetic, text.
use std::str::FromStr;

use tycho_types::dict::{LoadDictKey, StoreDictKey};
use tycho_types::num::*;
use tycho_types::prelude::*;
use tycho_types::cell::ExactSize;

use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
}

pub const TYPES: [(&str, usize, usize); 8] =
    [("v24", 32, 24), ("v56", 64, 56), ("v120", 128, 120), ("v248", 256, 248), ("u9", 16, 9), ("u12", 16, 12), ("u15", 16, 15), ("split", 8, 5)];

fn plain<F: FnOnce() -> String>(f: F) -> Json {
    match guarded(|| json!(f())) {
        Json::String(s) => json!(s),
        _ => json!("panic"),
    }
}
fn opt(v: Option<String>) -> Json {
    json!(v.unwrap_or_else(|| "none".into()))
}
fn cmp(o: std::cmp::Ordering) -> i32 {
    o as i32
}
fn agree(what: &str, v: &[Json]) -> Result<Json, Json> {
    if v.iter().all(|x| *x == v[0]) { Ok(v[0].clone()) } else { Err(json!(["differs", what, v])) }
}
fn w248(s: &str) -> VarUint248 {
    let s = format!("{s:0>256}");
    VarUint248::from_words(bits_u128(&s[..128]), bits_u128(&s[128..]))
}
fn b248(v: VarUint248) -> String {
    let (h, l) = v.into_words();
    u128_bits(h, 128) + &u128_bits(l, 128)
}
fn split(s: &str) -> SplitDepth {
    SplitDepth::new(bits_u64(s) as u8).expect("a valid depth")
}
fn load_err(e: tycho_types::error::Error) -> Json {
    err(&e)
}

/// Stores a value after `pre` bits; `size` is what the type says it takes.
fn store<T: Store>(v: &T, size: usize, pre: usize) -> Json {
    let mut b = CellBuilder::new();
    b.store_zeros(pre as u16).unwrap();
    match v.store_into(&mut b, Cell::empty_context()) {
        Ok(()) => {
            let c = b.build().unwrap();
            let bits = cell_bits(c.as_ref());
            json!(["ok", size, bits[pre..]])
        }
        Err(_) if b.size_bits() as usize != pre => json!(["differs", "a failed store left bits"]),
        Err(_) => json!(["full", size]),
    }
}
fn load<T, F: Fn(T) -> String>(bits: &str, f: F) -> Json
where
    for<'a> T: Load<'a>,
{
    let mut b = CellBuilder::new();
    store_bits(&mut b, bits).unwrap();
    let c = b.build().unwrap();
    let mut s = c.as_slice().unwrap();
    match T::load_from(&mut s) {
        Ok(v) => json!(["ok", f(v), s.size_bits()]),
        Err(e) => load_err(e),
    }
}
fn key<T: StoreDictKey + LoadDictKey>(v: &T, same: impl Fn(&T) -> bool, r: Json) -> Json {
    let mut d = tycho_types::cell::CellDataBuilder::new();
    match v.store_into_data(&mut d) {
        Ok(()) => {
            let bits = bytes_to_bits(d.raw_data(), d.size_bits() as usize);
            if r[0] != "ok" || r[2] != json!(bits) {
                return if r[0] == "ok" { json!(["differs", "key", bits]) } else { r };
            }
            match T::load_from_data(&d) {
                Some(x) if same(&x) => r,
                _ => json!(["differs", "key read back"]),
            }
        }
        Err(_) if r[0] == "ok" => json!(["differs", "key not stored"]),
        Err(_) => r,
    }
}

/// One operation in all its forms.
macro_rules! forms {
    ($name:expr, $bits:expr, $($e:expr),+) => {
        agree($name, &[$(plain(|| { let v = $e; $bits(v) })),+])
    };
}

macro_rules! calc {
    ($ty:ty, $inner:ty, $w:expr, $a:expr, $b:expr, [$($try:tt)*]) => {{
        let make = |s: &str| <$ty>::new(bits_u128(s) as $inner);
        let bits = |v: $ty| u128_bits(v.into_inner() as u128, $w);
        let (a, b) = (make($a), make($b));
        let i = b.into_inner();
        if (a == b.into_inner()) != (a == b) || (a.into_inner() == b) != (a == b) || (cmp(a.cmp(&b)) == 0) != (a == b) || a.partial_cmp(&b) != Some(a.cmp(&b)) {
            return json!(["differs", "equality"]);
        }
        let chk = [a.checked_add(b), a.checked_sub(b), a.checked_mul(b), a.checked_div(b)];
        calc!(@try $ty, a, b, chk, $($try)*);
        let sat = [a.saturating_add(b), a.saturating_sub(b), a.saturating_mul(b)];
        let ops = (|| Ok::<_, Json>(vec![
            forms!("add", bits, a + b, a + i, { let mut x = a; x += b; x }, { let mut x = a; x += i; x })?,
            forms!("sub", bits, a - b, a - i, { let mut x = a; x -= b; x }, { let mut x = a; x -= i; x })?,
            forms!("mul", bits, a * b, a * i, { let mut x = a; x *= b; x })?,
            forms!("div", bits, a / b, a / i, { let mut x = a; x /= b; x })?,
            json!("absent"),
        ]))();
        let ops = match ops { Ok(x) => x, Err(e) => return e };
        json!(["ok", cmp(a.cmp(&b)), chk.map(|x| opt(x.map(bits))), sat.map(bits), ops, [a.is_valid(), a.is_zero()]])
    }};
    (@try $ty:ty, $a:ident, $b:ident, $chk:ident, assign) => {
        let mut r = Vec::new();
        for f in [<$ty>::try_add_assign, <$ty>::try_sub_assign, <$ty>::try_mul_assign, <$ty>::try_div_assign] {
            let mut x = $a;
            r.push(match f(&mut x, $b) { Ok(()) => Some(x), Err(_) if x == $a => None, Err(_) => return json!(["differs", "a failed assignment changed the value"]) });
        }
        if r != $chk { return json!(["differs", "assignment"]); }
    };
    (@try $ty:ty, $a:ident, $b:ident, $chk:ident, ) => {};
}

fn calc(t: &str, a: &str, b: &str) -> Json {
    match t {
        "v24" => calc!(VarUint24, u32, 32, a, b, [assign]),
        "v56" => calc!(VarUint56, u64, 64, a, b, [assign]),
        "v120" => calc!(Tokens, u128, 128, a, b, [assign]),
        "u9" => calc!(Uint9, u16, 16, a, b, []),
        "u12" => calc!(Uint12, u16, 16, a, b, []),
        "u15" => calc!(Uint15, u16, 16, a, b, []),
        "split" => {
            let (x, y) = (split(a), split(b));
            if (x == y) != (x.cmp(&y) as i32 == 0) || x.into_bit_len() != bits_u64(a) as u16 {
                return json!(["differs", "equality"]);
            }
            json!(["ok", cmp(x.cmp(&y)), [], [], ["absent", "absent", "absent", "absent", "absent"], [true, false]])
        }
        "v248" => {
            let (a, b) = (w248(a), w248(b));
            let bits = b248;
            let (h, l) = b.into_words();
            if (a == b) != (a.cmp(&b) as i32 == 0) || a.partial_cmp(&b) != Some(a.cmp(&b)) {
                return json!(["differs", "equality"]);
            }
            if h == 0 && ((a == l) != (a == b) || a.partial_cmp(&l) != Some(a.cmp(&b))) {
                return json!(["differs", "equality with a small number"]);
            }
            let chk = [a.checked_add(&b), a.checked_sub(&b), a.checked_mul(&b)];
            let sat = [a.saturating_add(&b), a.saturating_sub(&b), a.saturating_mul(&b)];
            let small = h == 0;
            macro_rules! all {
                ($n:expr, $o:tt, $oa:tt) => {{
                    let r = forms!($n, bits, a $o b, a $o &b, { let mut x = a; x $oa b; x }, { let mut x = a; x $oa &b; x })?;
                    if small && agree($n, &[r.clone(), plain(|| bits(a $o l)), plain(|| { let mut x = a; x $oa l; bits(x) })]).is_err() {
                        return Err(json!(["differs", $n, "with a small number"]));
                    }
                    r
                }};
            }
            let ops = (|| Ok::<_, Json>(vec![all!("add", +, +=), all!("sub", -, -=), all!("mul", *, *=), all!("div", /, /=), all!("rem", %, %=)]))();
            let ops = match ops { Ok(x) => x, Err(e) => return e };
            let mut chk: Vec<Json> = chk.into_iter().map(|x| opt(x.map(bits))).collect();
            chk.push(json!("absent"));
            json!(["ok", cmp(a.cmp(&b)), chk, sat.map(bits), ops, [a.is_valid(), a.is_zero()]])
        }
        _ => json!(["tool"]),
    }
}

macro_rules! rest {
    ($op:expr, $ty:ty, $inner:ty, $w:expr, $len:expr, $max:expr, $key:tt) => {{
        let op = $op;
        let make = |s: &str| <$ty>::new(bits_u128(s) as $inner);
        let bits = |v: $ty| u128_bits(v.into_inner() as u128, $w);
        match js(&op["op"]) {
            "consts" => {
                if <$ty>::ZERO != make("0") || <$ty>::ONE != make("1") || <$ty>::default() != <$ty>::ZERO {
                    return json!(["differs", "constants"]);
                }
                json!(["ok", bits(<$ty>::MIN), bits(<$ty>::MAX), $max])
            }
            "store" => {
                let v = make(js(&op["v"]));
                let size = v.exact_size().bits;
                $len(&v, size);
                let r = store(&v, size as usize, ju(&op["pre"]));
                rest!(@key $key, v, r)
            }
            "load" => load::<$ty, _>(js(&op["v"]), bits),
            "text" => match <$ty>::from_str(js(&op["s"])) {
                Ok(v) => json!(["ok", bits(v)]),
                Err(e) => json!(["err", e.to_string()]),
            },
            "json" => match serde_json::from_str::<$ty>(&quoted(op)) {
                Ok(v) => json!(["ok", bits(v)]),
                Err(e) => json!(["err", e.to_string()]),
            },
            "show" => {
                let v = make(js(&op["v"]));
                let inner = v.into_inner();
                let t = <$ty>::try_from(inner);
                if t.is_ok_and(|x| x != v) || <$inner>::from(v) != inner
                    || num_bigint::BigInt::from(v) != num_bigint::BigInt::from(inner) || num_bigint::BigUint::from(v) != num_bigint::BigUint::from(inner) {
                    return json!(["differs", "conversion"]);
                }
                json!(["ok", v.to_string(), serde_json::to_string(&v).unwrap(), [format!("{v:b}"), format!("{v:x}"), format!("{v:X}")], <$ty>::try_from(inner).is_ok()])
            }
            "shift" => {
                let (v, n) = (make(js(&op["v"])), ju(&op["n"]) as u8);
                let r = (|| Ok::<_, Json>(json!(["ok", forms!("shr", bits, v >> n, { let mut x = v; x >>= n; x })?, forms!("shl", bits, v << n, { let mut x = v; x <<= n; x })?])))();
                r.unwrap_or_else(|e| e)
            }
            _ => json!(["tool"]),
        }
    }};
    (@key key, $v:ident, $r:ident) => { key(&$v, |x| *x == $v, $r) };
    (@key var, $v:ident, $r:ident) => {{
        // the two forms of the length agree with the declared size
        let l = $v.bit_len();
        if l.unwrap_or(0) as usize != $r[1].as_u64().unwrap() as usize || $v.unwrap_bit_len() != l.unwrap_or(MaxBits::max_bits(&$v)) {
            return json!(["differs", "length"]);
        }
        $r
    }};
}
trait MaxBits {
    fn max_bits(&self) -> u16;
}
impl MaxBits for VarUint24 { fn max_bits(&self) -> u16 { Self::MAX_BITS } }
impl MaxBits for VarUint56 { fn max_bits(&self) -> u16 { Self::MAX_BITS } }
impl MaxBits for Tokens { fn max_bits(&self) -> u16 { Self::MAX_BITS } }

fn quoted(op: &Json) -> String {
    if jb(&op["q"]) { format!("\"{}\"", js(&op["s"])) } else { js(&op["s"]).to_string() }
}
fn rest(op: &Json) -> Json {
    let nop = |_: &dyn std::fmt::Debug, _: u16| ();
    match js(&op["t"]) {
        "v24" => rest!(op, VarUint24, u32, 32, nop, VarUint24::MAX_BITS, var),
        "v56" => rest!(op, VarUint56, u64, 64, nop, VarUint56::MAX_BITS, var),
        "v120" => rest!(op, Tokens, u128, 128, nop, Tokens::MAX_BITS, var),
        "u9" => rest!(op, Uint9, u16, 16, nop, Uint9::BITS, key),
        "u12" => rest!(op, Uint12, u16, 16, nop, Uint12::BITS, key),
        "u15" => rest!(op, Uint15, u16, 16, nop, Uint15::BITS, key),
        "split" => {
            let bits = |v: SplitDepth| u128_bits(v.into_bit_len() as u128, 8);
            match js(&op["op"]) {
                "consts" => json!(["ok", bits(SplitDepth::MIN), bits(SplitDepth::MAX), SplitDepth::BITS]),
                "store" => {
                    let v = split(js(&op["v"]));
                    store(&v, v.exact_size().bits as usize, ju(&op["pre"]))
                }
                "load" => load::<SplitDepth, _>(js(&op["v"]), bits),
                "json" => match serde_json::from_str::<SplitDepth>(&quoted(op)) {
                    Ok(v) => json!(["ok", bits(v)]),
                    Err(e) => json!(["err", e.to_string()]),
                },
                "new" => {
                    let n = bits_u64(js(&op["v"]));
                    let l = SplitDepth::from_bit_len(n as u16).ok();
                    let s = if n < 256 { SplitDepth::new(n as u8).ok() } else { l };
                    match (l, s) {
                        (Some(a), Some(b)) if a == b => {
                            let j = serde_json::to_string(&a).unwrap();
                            if j != n.to_string() { json!(["differs", j]) } else { json!(["ok", bits(a)]) }
                        }
                        (None, None) => json!(["err", "range"]),
                        _ => json!(["differs", "constructors"]),
                    }
                }
                _ => json!(["tool"]),
            }
        }
        "v248" => {
            let bits = b248;
            match js(&op["op"]) {
                "consts" => {
                    if VarUint248::ZERO != w248("0") || VarUint248::ONE != w248("1") || VarUint248::default() != VarUint248::ZERO {
                        return json!(["differs", "constants"]);
                    }
                    json!(["ok", bits(VarUint248::MIN), bits(VarUint248::MAX), VarUint248::MAX_BITS])
                }
                "store" => {
                    let v = w248(js(&op["v"]));
                    let size = v.exact_size().bits;
                    if v.bit_len().unwrap_or(0) != size || v.leading_zeros() as usize != js(&op["v"]).find('1').unwrap_or(256) {
                        return json!(["differs", "length"]);
                    }
                    store(&v, size as usize, ju(&op["pre"]))
                }
                "load" => load::<VarUint248, _>(js(&op["v"]), bits),
                "text" => {
                    let s = js(&op["s"]);
                    let (a, b) = (VarUint248::from_str(s), VarUint248::from_str_radix(s, 10));
                    if a != b {
                        return json!(["differs", "radix"]);
                    }
                    a.map(|v| json!(["ok", bits(v)])).unwrap_or_else(|e| json!(["err", e.to_string()]))
                }
                "radix" => VarUint248::from_str_radix(js(&op["s"]), ju(&op["n"]) as u32).map(|v| json!(["ok", bits(v)])).unwrap_or_else(|e| json!(["err", e.to_string()])),
                "json" => match serde_json::from_str::<VarUint248>(&quoted(op)) {
                    Ok(v) => json!(["ok", bits(v)]),
                    Err(e) => json!(["err", e.to_string()]),
                },
                "show" => {
                    let v = w248(js(&op["v"]));
                    let (h, l) = v.into_words();
                    let big = (num_bigint::BigUint::from(h) << 128u32) + num_bigint::BigUint::from(l);
                    if num_bigint::BigUint::from(v) != big || num_bigint::BigInt::from(v) != num_bigint::BigInt::from(big) {
                        return json!(["differs", "conversion"]);
                    }
                    if h == 0 && VarUint248::from(l) != v || VarUint248::from(l as u8) != VarUint248::new(l & 0xff) || VarUint248::from(l as u64) != VarUint248::new(l & u64::MAX as u128)
                        || VarUint248::from(l as u32) != VarUint248::new(l & u32::MAX as u128) || v.as_usize() != l as usize || v.as_isize() != l as isize {
                        return json!(["differs", "small conversion"]);
                    }
                    json!(["ok", v.to_string(), serde_json::to_string(&v).unwrap(), [], v.is_valid()])
                }
                "shift" => {
                    let (v, n) = (w248(js(&op["v"])), ju(&op["n"]));
                    let r = (|| {
                        Ok::<_, Json>(json!([
                            "ok",
                            forms!("shr", bits, v >> n, v >> (n as u32), v >> (n as i32), { let mut x = v; x >>= n; x })?,
                            forms!("shl", bits, v << n, v << (n as u32), v << (n as i32), { let mut x = v; x <<= n; x })?
                        ]))
                    })();
                    r.unwrap_or_else(|e| e)
                }
                _ => json!(["tool"]),
            }
        }
        _ => json!(["tool"]),
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "calc" => calc(js(&op["t"]), js(&op["a"]), js(&op["b"])),
            _ => rest(op),
        }
    }
}

/// A value of `w` bits; of at most `max` bits when `valid`; lengths near byte and word borders are preferred.
fn value(r: &mut Rng, t: usize, valid: bool) -> String {
    let (name, w, max) = TYPES[t];
    if name == "split" {
        return u128_bits(*r.pick(&[1, 2, 15, 16, 29, 30, 1 + r.clone().below(30) as u128]), 8);
    }
    let top = if valid { max } else { w };
    let n = match r.below(5) {
        0 => r.below(top + 1),
        1 => (8 * r.below(top / 8 + 1) + r.below(3)).min(top),
        2 => *r.pick(&[0, 1, 8, 64, 63, 65, 120, 127, 128, 129, 248, max, max - 1]),
        3 => top,
        _ => top - r.below(top.min(10)),
    }
    .min(top);
    let mut v = match r.below(5) {
        0 => "1".repeat(n),
        1 if n > 0 => format!("1{}", "0".repeat(n - 1)),
        2 => r.runs(n),
        _ => r.bits(n),
    };
    if n > 0 && r.flip() {
        v.replace_range(0..1, "1");
    }
    format!("{v:0>w$}")
}
fn add_one(v: &str) -> String {
    let mut b: Vec<u8> = v.bytes().collect();
    for x in b.iter_mut().rev() {
        if *x == b'0' {
            *x = b'1';
            break;
        }
        *x = b'0';
    }
    String::from_utf8(b).unwrap()
}
fn decimal(v: &str, radix: u32) -> String {
    num_bigint::BigUint::parse_bytes(v.as_bytes(), 2).unwrap_or_default().to_str_radix(radix)
}
fn text(r: &mut Rng, t: usize, radix: u32) -> String {
    let mut v = value(r, t, !r.clone().chance(1, 4));
    if r.chance(1, 6) {
        // the smallest that is too large, and above
        v = format!("1{}", "0".repeat(*r.pick(&[TYPES[t].2, TYPES[t].1, TYPES[t].2 + 1])));
        if r.flip() {
            v = add_one(&v);
        }
    }
    let mut s = decimal(&v, radix);
    match r.below(12) {
        0 => s.insert(0, '+'),
        1 => s.insert(0, '-'),
        2 => s = format!("{}{s}", "0".repeat(r.below(50))),
        3 => {
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(&[' ', '_', '.', 'a', 'z', 'g', ':', '/', '+']));
        }
        4 => s.clear(),
        5 => s = "+".into(),
        6 => s.push(*r.pick(&['0', '9', ' '])),
        7 => s = s.to_uppercase(),
        _ => {}
    }
    s
}

fn go(m: &mut M, ev: &mut Vec<Json>, mut op: Json) {
    op["r"] = m.run(&op);
    ev.push(op);
}
pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    while ev.len() < len {
        let t = r.below(TYPES.len());
        let t = if r.chance(1, 3) { *r.pick(&[2, 3]) } else { t };
        let (name, w, max) = TYPES[t];
        let op = match if sel == "calc" { 0 } else { r.below(12) } {
            0..=3 => {
                let valid = !r.chance(1, 8);
                let mut a = value(&mut r, t, valid);
                let b = if r.chance(1, 5) { a.clone() } else { value(&mut r, t, valid) };
                if name != "split" && r.chance(1, 10) {
                    a = add_one(&b);
                }
                // a product next to a border, and a dividend next to a multiple
                if name != "split" && r.chance(1, 3) {
                    let big = |s: &str| num_bigint::BigUint::parse_bytes(s.as_bytes(), 2).unwrap();
                    let mut b = big(&b);
                    if r.flip() {
                        // digits at the ends of their ranges make division guess wrongly
                        b = num_bigint::BigUint::default();
                        let k = r.range(1, 7);
                        for _ in 0..k {
                            let x: u32 = *r.pick(&[0, 1, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x7fff_ffff, 0x8000_0001]);
                            b = (b << 32u32) + x;
                        }
                        b >>= (k as u32 * 32).saturating_sub(w as u32) + r.clone().below(3) as u32;
                    }
                    let c = if r.flip() {
                        let k = r.below(w + 1);
                        big(&r.mixed_bits(k.max(1)))
                    } else {
                        let k = *r.pick(&[8u32, 32, 64, 96, 128]);
                        (num_bigint::BigUint::from(1u32) << k) - 1u32 - r.below(3) as u32
                    };
                    let one = num_bigint::BigUint::from(1u32);
                    let zero = num_bigint::BigUint::default();
                    let x = if b == zero || r.chance(1, 2) {
                        let p = &b * &c + r.below(3) as u32;
                        if p > zero { p - r.below(2) as u32 } else { p }
                    } else {
                        let top = &one << (*r.pick(&[max, w]) as u32);
                        let q = top / &b + r.below(3) as u32;
                        if q > zero { q - r.below(2) as u32 } else { q }
                    };
                    let f = |v: num_bigint::BigUint| { let s = format!("{:0>w$}", v.to_str_radix(2)); s[s.len() - w..].to_string() };
                    json!({"op": "calc", "t": name, "a": f(x), "b": f(b)})
                } else
                // operands whose product or sum lies at the border
                if name != "split" && r.chance(1, 5) {
                    let k = r.below(max + 1);
                    a = format!("1{}", "0".repeat(k));
                    let b = format!("1{}", "0".repeat((max - k).saturating_sub(r.below(2))));
                    let (mut a, mut b) = (format!("{a:0>w$}"), format!("{b:0>w$}"));
                    if r.chance(1, 3) {
                        a = add_one(&a);
                    }
                    if r.chance(1, 3) {
                        b = add_one(&b);
                    }
                    json!({"op": "calc", "t": name, "a": &a[a.len() - w..], "b": &b[b.len() - w..]})
                } else {
                    json!({"op": "calc", "t": name, "a": a, "b": b})
                }
            }
            4 => {
                let valid = !r.chance(1, 6);
                let pre = *r.pick(&[0, 0, 1, 7, 770, 1023, 1022, 1023 - max, 1024 - max, 1018 - max, 1000, r.clone().below(1024)]);
                json!({"op": "store", "t": name, "v": value(&mut r, t, valid), "pre": pre})
            }
            5 | 6 => {
                let l = [2, 3, 4, 5, 0, 0, 0, 0][t];
                let bytes = r.below(1 << l);
                let n = if l == 0 { max } else { 8 * bytes };
                let body = if r.chance(1, 3) { format!("00000000{}", r.bits(n.saturating_sub(8))) } else { r.mixed_bits(n) };
                let mut v = if l == 0 { r.mixed_bits(n) } else { format!("{}{}", u128_bits(bytes as u128, l), &body[..n]) };
                match r.below(4) {
                    0 => {
                        let tail = r.below(30);
                        v.push_str(&r.bits(tail))
                    }
                    1 => {
                        v.pop();
                    }
                    2 if r.chance(1, 3) => v.truncate(r.below(v.len() + 1)),
                    _ => {}
                }
                json!({"op": "load", "t": name, "v": v})
            }
            7 if name != "split" => json!({"op": "text", "t": name, "s": text(&mut r, t, 10)}),
            8 => {
                let q = r.flip();
                let s = text(&mut r, t, 10);
                json!({"op": "json", "t": name, "s": s.trim(), "q": if r.chance(1, 6) { q } else { name == "v120" || name == "v248" }})
            }
            9 => {
                let n = r.range(2, 36);
                json!({"op": "radix", "t": "v248", "s": text(&mut r, 3, n as u32), "n": n})
            }
            10 if name != "split" => {
                let valid = !r.chance(1, 5);
                json!({"op": "show", "t": name, "v": value(&mut r, t, valid)})
            }
            11 => {
                if name == "split" {
                    json!({"op": "new", "t": name, "v": u128_bits(*r.pick(&[0, 1, 30, 31, 32, 33, 255, 256, 257, 286, r.clone().below(70000) as u128]) & 0xffff, 16)})
                } else if r.chance(1, 30) {
                    json!({"op": "consts", "t": name})
                } else {
                    let n = *r.pick(&[0, 1, 63, 64, 65, 127, 128, 129, w - 1, r.clone().below(w)]);
                    json!({"op": "shift", "t": name, "v": value(&mut r, t, false), "n": n.min(w - 1)})
                }
            }
            _ => continue,
        };
        go(&mut m, &mut ev, op);
    }
    if sel != "calc" {
        go(&mut m, &mut ev, json!({"op": "consts", "t": r.pick(&TYPES).0}));
    }
    Trace { cfg: json!({"none": 0}), cells: Vec::new(), ev }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
