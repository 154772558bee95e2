//! Addresses and their notations.
use tycho_types::dict::{DictKey, LoadDictKey, StoreDictKey};
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
}

type R<T> = Result<T, Json>;
fn e<T>(r: Result<T, Error>) -> R<T> {
    r.map_err(|x| err(&x))
}
fn pe<T>(r: Result<T, tycho_types::error::ParseAddrError>) -> R<T> {
    r.map_err(|x| json!(["err", format!("{x:?}")]))
}
fn differs<T>(w: &str) -> R<T> {
    Err(json!(["differs", w]))
}

fn anycast(v: &str) -> R<Option<Box<Anycast>>> {
    if v == "-" {
        return Ok(None);
    }
    let mut b = CellBuilder::new();
    store_bits(&mut b, v).unwrap();
    let c = b.build().unwrap();
    Ok(Some(Box::new(e(Anycast::from_slice(&c.as_slice().unwrap()))?)))
}
fn any_bits(a: &Option<Box<Anycast>>) -> String {
    match a {
        None => "-".to_owned(),
        Some(a) => bytes_to_bits(&a.rewrite_prefix, a.depth.into_bit_len() as usize),
    }
}
fn bits_hash(v: &str) -> HashBytes {
    HashBytes(bits_to_bytes(v).try_into().unwrap())
}
fn std_addr(any: &str, wc: &str, v: &str) -> R<StdAddr> {
    Ok(StdAddr { anycast: anycast(any)?, workchain: bits_u64(wc) as i8, address: bits_hash(v) })
}
fn make(t: &str, any: &str, wc: &str, v: &str) -> R<IntAddr> {
    Ok(match t {
        "std" => IntAddr::Std(std_addr(any, wc, v)?),
        _ => IntAddr::Var(VarAddr { anycast: anycast(any)?, address_len: Uint9::new(v.len() as u16), workchain: bits_u64(wc) as i32, address: bits_to_bytes(v) }),
    })
}
fn std_fields(a: &StdAddr) -> Vec<Json> {
    vec![json!("std"), json!(any_bits(&a.anycast)), json!(u128_bits(a.workchain as u8 as u128, 8)), json!(bytes_to_bits(&a.address.0, 256))]
}
fn fields(a: &IntAddr) -> Vec<Json> {
    match a {
        IntAddr::Std(a) => std_fields(a),
        IntAddr::Var(a) => vec![
            json!("var"),
            json!(any_bits(&a.anycast)),
            json!(u128_bits(a.workchain as u32 as u128, 32)),
            json!(bytes_to_bits(&a.address, a.address_len.into_inner() as usize)),
        ],
    }
}
fn ext_fields(a: &ExtAddr) -> Vec<Json> {
    vec![json!("ext"), json!("-"), json!(""), json!(bytes_to_bits(&a.data, a.data_bit_len.into_inner() as usize))]
}
fn ok(mut v: Vec<Json>) -> Json {
    v.insert(0, json!("ok"));
    Json::Array(v)
}
fn stored<T: Store>(t: &T) -> R<Cell> {
    e(CellBuilder::build_from(t))
}
/// Stores and loads it again.
fn again<T: Store + PartialEq>(t: &T, len: u16) -> R<String>
where
    for<'a> T: Load<'a>,
{
    let c = stored(t)?;
    if c.bit_len() != len || c.reference_count() != 0 {
        return differs("size");
    }
    let mut s = c.as_slice().unwrap();
    if e(T::load_from(&mut s))? != *t || !s.is_empty() {
        return differs("loaded");
    }
    Ok(cell_bits(c.as_ref()))
}
/// External addresses are stored as a part of a message header.
fn ext_bits(a: &ExtAddr) -> R<String> {
    let h = MsgInfo::ExtIn(ExtInMsgInfo { src: Some(a.clone()), dst: IntAddr::default(), import_fee: Tokens::ZERO });
    let v = again(&h, h.exact_size().bits)?;
    let tail = format!("100{}0000", "0".repeat(264));
    match v.strip_prefix("10").and_then(|v| v.strip_suffix(&tail)) {
        Some(v) => Ok(v.to_owned()),
        None => differs("header"),
    }
}
fn json_str<T: serde::de::DeserializeOwned>(s: &str) -> R<T> {
    serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|_| json!(["err", "json"]))
}

impl M {
    fn make(op: &Json) -> R<Json> {
        let (t, v) = (js(&op["t"]), js(&op["v"]));
        if t == "ext" {
            let Some(a) = ExtAddr::new(v.len() as u16, bits_to_bytes(v)) else { return Ok(json!(["err", "none"])) };
            let text = a.to_string();
            if pe(text.parse::<ExtAddr>())? != a || json_str::<ExtAddr>(&text)? != a || serde_json::to_value(&a).unwrap() != json!(text) {
                return differs("text");
            }
            return Ok(json!(["ok", ext_bits(&a)?, a.bit_len(), text]));
        }
        let a = make(t, js(&op["any"]), js(&op["wc"]), v)?;
        let bits = again(&a, a.bit_len())?;
        if a.bit_len() > IntAddr::BITS_MAX {
            return differs("BITS_MAX");
        }
        let inner = match &a {
            IntAddr::Std(a) => (again(a, a.bit_len())?, a.bit_len(), a.prefix(), a.is_masterchain(), a.to_string(), Addr::prefix(a), Addr::workchain(a)),
            IntAddr::Var(a) => (cell_bits(stored(a)?.as_ref()), a.bit_len(), a.prefix(), a.is_masterchain(), "varaddr".to_owned(), Addr::prefix(a), Addr::workchain(a)),
        };
        let outer = (bits, a.bit_len(), a.prefix(), a.is_masterchain(), a.to_string(), Addr::prefix(&a), Addr::workchain(&a));
        if inner != outer || a.workchain() != outer.6 || a.anycast() != match &a { IntAddr::Std(a) => &a.anycast, IntAddr::Var(a) => &a.anycast } {
            return differs("parts");
        }
        if a.as_std().is_some() == a.as_var().is_some() || a.as_std().is_some() != (t == "std") {
            return differs("kind");
        }
        if let Some(s) = a.as_std() {
            let text = s.to_string();
            if serde_json::to_value(s).unwrap() != json!(text) || serde_json::to_value(&a).unwrap() != json!(text) {
                return differs("json");
            }
            // text with an anycast prefix is not read back, nor as another address
            match text.parse::<StdAddr>() {
                Ok(x) if x != *s => return differs("text"),
                Err(_) if s.anycast.is_none() => return differs("text"),
                _ => {}
            }
            if s.anycast.is_none() && (IntAddr::from((s.workchain, s.address)) != a || StdAddr::from((s.workchain, s.address.0)) != *s) {
                return differs("from parts");
            }
        }
        Ok(json!(["ok", outer.0, outer.1, u128_bits(outer.2 as u128, 64), outer.3, outer.4]))
    }
    fn odd(op: &Json) -> R<Json> {
        let data = bits_to_bytes(js(&op["data"]));
        let n = ju(&op["n"]) as u16;
        if js(&op["t"]) == "ext" {
            let Some(a) = ExtAddr::new(n, data) else { return Ok(json!(["err", "none"])) };
            // what is loaded is in normal form
            let c = stored(&ExtInMsgInfo { src: Some(a), dst: IntAddr::default(), import_fee: Tokens::ZERO })?;
            let a = e(c.parse::<ExtInMsgInfo>())?.src.unwrap();
            if a.data.len() != (n as usize).div_ceil(8) {
                return differs("normal form");
            }
            return Ok(json!(["ok", ext_bits(&a)?]));
        }
        let a = VarAddr { anycast: None, address_len: Uint9::new(n), workchain: bits_u64(js(&op["wc"])) as i32, address: data };
        let c = stored(&a)?;
        if c.bit_len() != a.bit_len() {
            return differs("size");
        }
        Ok(json!(["ok", cell_bits(c.as_ref())]))
    }
    fn load(op: &Json) -> R<Json> {
        let mut b = CellBuilder::new();
        store_bits(&mut b, js(&op["v"])).unwrap();
        let c = b.build().unwrap();
        let mut s = c.as_slice().unwrap();
        let mut r = match js(&op["what"]) {
            "int" => fields(&e(IntAddr::load_from(&mut s))?),
            "std" => std_fields(&e(StdAddr::load_from(&mut s))?),
            _ => return Err(json!(["tool"])),
        };
        r.push(json!(slice_bits(&s)));
        Ok(ok(r))
    }
    fn cmp(op: &Json) -> R<Json> {
        let get = |x: &Json| make(js(&x["t"]), js(&x["any"]), js(&x["wc"]), js(&x["v"]));
        let (a, b) = (get(&op["a"])?, get(&op["b"])?);
        let o = a.cmp(&b);
        if (a == b) != o.is_eq() || b.cmp(&a) != o.reverse() || a.partial_cmp(&b) != Some(o) {
            return differs("order");
        }
        if let (Some(a), Some(b)) = (a.as_std(), b.as_std()) {
            if a.cmp(b) != o || (a == b) != o.is_eq() {
                return differs("inner order");
            }
        }
        Ok(json!(["ok", o as i8]))
    }
    fn show(op: &Json) -> R<Json> {
        let a = std_addr(js(&op["any"]), js(&op["wc"]), js(&op["v"]))?;
        let (bounceable, testnet) = (jb(&op["bounce"]), jb(&op["test"]));
        let show = |base64_url| DisplayBase64StdAddr { addr: &a, flags: Base64StdAddrFlags { testnet, base64_url, bounceable } }.to_string();
        let (x, y) = (show(false), show(true));
        if !testnet && (a.display_base64(bounceable).to_string() != x || a.display_base64_url(bounceable).to_string() != y) {
            return differs("display");
        }
        if !testnet && !bounceable {
            let s = || serde_json::value::Serializer;
            if StdAddrBase64Repr::<false>::serialize(&a, s()).unwrap() != json!(x) || StdAddrBase64Repr::<true>::serialize(&a, s()).unwrap() != json!(y) {
                return differs("json");
            }
        }
        Ok(json!(["ok", x, y]))
    }
    fn parse(op: &Json) -> R<Json> {
        let s = js(&op["s"]);
        Ok(match js(&op["what"]) {
            "std" => ok(std_fields(&pe(s.parse::<StdAddr>())?)),
            "int" => ok(fields(&pe(s.parse::<IntAddr>())?)),
            "ext" => {
                let a = pe(s.parse::<ExtAddr>())?;
                if pe(a.to_string().parse::<ExtAddr>())? != a {
                    return differs("normal form");
                }
                ok(ext_fields(&a))
            }
            "json" => ok(std_fields(&json_str(s)?)),
            "jsonint" => ok(fields(&json_str(s)?)),
            "jsonext" => ok(ext_fields(&json_str(s)?)),
            "any" => {
                let f: Vec<bool> = op["f"].as_array().unwrap().iter().map(jb).collect();
                let (a, g) = pe(StdAddr::from_str_ext(s, StdAddrFormat { allow_raw: f[0], allow_base64: f[1], allow_base64_url: f[2] }))?;
                let mut r = std_fields(&a);
                r.extend([json!(g.testnet), json!(g.base64_url), json!(g.bounceable)]);
                ok(r)
            }
            "json64" => {
                let v = json!(s);
                let a = StdAddrBase64Repr::<true>::deserialize(&v).map_err(|_| json!(["err", "json"]))?;
                if StdAddrBase64Repr::<false>::deserialize(&v).ok() != Some(a.clone()) {
                    return differs("json");
                }
                ok(std_fields(&a))
            }
            "hash" => {
                let h = s.parse::<HashBytes>().map_err(|_| json!(["err", "hash"]))?;
                if h.to_string().parse::<HashBytes>().ok() != Some(h) || format!("{h:x}") != h.to_string() || format!("{h:X}").parse::<HashBytes>().ok() != Some(h) {
                    return differs("text");
                }
                json!(["ok", bytes_to_bits(&h.0, 256)])
            }
            "jsonhash" => {
                let h: HashBytes = json_str(s)?;
                if serde_json::to_value(h).unwrap() != json!(h.to_string()) {
                    return differs("json");
                }
                json!(["ok", bytes_to_bits(&h.0, 256)])
            }
            _ => json!(["tool"]),
        })
    }
    fn key(op: &Json) -> R<Json> {
        let a = std_addr(js(&op["any"]), js(&op["wc"]), js(&op["v"]))?;
        let mut b = tycho_types::cell::CellDataBuilder::new();
        e(a.store_into_data(&mut b))?;
        let v = bytes_to_bits(b.raw_data(), b.size_bits() as usize);
        if v.len() != StdAddr::BITS as usize || StdAddr::load_from_data(&b).as_ref() != Some(&a) {
            return differs("key");
        }
        Ok(json!(["ok", v]))
    }
    fn unkey(op: &Json) -> R<Json> {
        let v = js(&op["v"]);
        let b = e(tycho_types::cell::CellDataBuilder::from_raw_data(&bits_to_bytes(v), v.len() as u16))?;
        Ok(match StdAddr::load_from_data(&b) {
            None => json!(["none"]),
            Some(a) => json!(["ok", u128_bits(a.workchain as u8 as u128, 8), bytes_to_bits(&a.address.0, 256)]),
        })
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "make" => Self::make(op),
            "odd" => Self::odd(op),
            "load" => Self::load(op),
            "cmp" => Self::cmp(op),
            "show" => Self::show(op),
            "parse" => Self::parse(op),
            "key" => Self::key(op),
            "unkey" => Self::unkey(op),
            x => Ok(json!(["tool", x])),
        }
        .unwrap_or_else(|x| x)
    }
}

struct G {
    r: Rng,
    v: Vec<String>,
}
impl G {
    fn acc(&mut self) -> String {
        if !self.v.is_empty() && self.r.chance(1, 3) {
            let mut x = self.r.pick(&self.v).clone().into_bytes();
            if self.r.flip() {
                let i = self.r.below(x.len());
                x[i] ^= 1;
            }
            return String::from_utf8(x).unwrap();
        }
        let v = self.r.mixed_bits(256);
        self.v.push(v.clone());
        v
    }
    fn any(&mut self) -> String {
        match self.r.below(4) {
            0 => {
                let n = *self.r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 29, 30, 30, 31, 32, 40]);
                self.r.mixed_bits(n)
            }
            _ => "-".to_owned(),
        }
    }
    fn wc(&mut self, n: usize) -> String {
        match self.r.below(4) {
            0 => "1".repeat(n),
            1 => "0".repeat(n),
            _ => self.r.mixed_bits(n),
        }
    }
    fn addr(&mut self) -> Json {
        let any = self.any();
        match self.r.below(5) {
            0 => json!({"t": "ext", "any": "-", "wc": "", "v": self.var()}),
            1 => json!({"t": "var", "any": any, "wc": self.wc(32), "v": self.var()}),
            _ => json!({"t": "std", "any": any, "wc": self.wc(8), "v": self.acc()}),
        }
    }
    fn var(&mut self) -> String {
        let n = *self.r.pick(&[0, 1, 4, 7, 8, 9, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 504, 508, 510, 511, 511, 512, 513, 600]);
        let n = if self.r.flip() { n } else { self.r.below(512) };
        self.r.mixed_bits(n)
    }
    fn valid_bits(&mut self) -> String {
        let a = loop {
            let a = self.addr();
            if js(&a["t"]) != "ext" {
                break a;
            }
        };
        match make(js(&a["t"]), js(&a["any"]), js(&a["wc"]), js(&a["v"])).and_then(|a| stored(&a)) {
            Ok(c) => cell_bits(c.as_ref()),
            Err(_) => self.r.mixed_bits(300),
        }
    }
    fn text(&mut self) -> (String, &'static str) {
        let a = StdAddr::new(bits_u64(&self.wc(8)) as i8, bits_hash(&self.acc()));
        match self.r.below(7) {
            0 | 1 => {
                let s = a.to_string();
                let s = match self.r.below(8) {
                    0 => format!("+{s}"),
                    1 => format!("0{s}"),
                    2 => s.to_uppercase(),
                    3 => format!("{}{}", *self.r.pick(&["128", "-129", "256", "-0", "127", "-128", "00", "+", "-", "", " 0", "0x1", "９"]), &s[s.find(':').unwrap()..]),
                    4 => format!("{s}:{}", *self.r.pick(&["", "0", "00"])),
                    _ => s,
                };
                (s, *self.r.pick(&["std", "int", "json", "jsonint", "any", "any", "json64"]))
            }
            2 | 3 => {
                let flags = Base64StdAddrFlags { testnet: self.r.flip(), base64_url: self.r.flip(), bounceable: self.r.flip() };
                let mut s = DisplayBase64StdAddr { addr: &a, flags }.to_string();
                if self.r.chance(1, 4) {
                    // a valid checksum of something else
                    let mut d = self.r.bytes(34);
                    if self.r.flip() {
                        d[0] = *self.r.pick(&[0x11, 0x51, 0x91, 0xd1, 0x10, 0x31, 0x13, 0x50, 0xd0, 0]);
                    }
                    let crc = tycho_types::crc::crc_16(&d);
                    d.extend(crc.to_be_bytes());
                    s = base64(&d, flags.base64_url);
                }
                (s, *self.r.pick(&["any", "any", "any", "json64", "std", "hash"]))
            }
            4 => {
                let v = self.var();
                let t = match ExtAddr::new(v.len() as u16, bits_to_bytes(&v)) {
                    Some(a) => a.to_string(),
                    None => format!(":{}", hex(&bits_to_bytes(&v))),
                };
                let t = if self.r.chance(1, 6) { t + "_" } else { t };
                (t, *self.r.pick(&["ext", "jsonext"]))
            }
            5 => {
                let d = self.r.hash();
                (base64(&d[..if self.r.chance(1, 4) { 31 } else { 32 }], false), *self.r.pick(&["hash", "hash", "hash", "jsonhash"]))
            }
            _ => {
                let h = hex(&self.r.hash());
                let h = if self.r.flip() { h.to_uppercase() } else { h };
                let p = *self.r.pick(&["", "", "0x", "0x", "0X", "xx", "é", "日", "0"]);
                let h = if p == "日" { &h[1..] } else { &h[..] };
                (format!("{p}{h}"), *self.r.pick(&["hash", "hash", "jsonhash"]))
            }
        }
    }
    fn damage(&mut self, s: &str) -> String {
        let mut c: Vec<char> = s.chars().collect();
        let n = *self.r.pick(&[0, 0, 1, 1, 1, 2, 3]);
        for _ in 0..n {
            let x = *self.r.pick(&['0', '1', 'f', 'F', 'g', 'A', 'z', 'Z', '9', '+', '/', '-', '_', '=', ':', ' ', '\n', '\0', 'é', 'ß', '日', '😀', '８']);
            let k = self.r.below(c.len() + 1);
            match self.r.below(5) {
                0 => c.insert(k, x),
                1 if k < c.len() => {
                    c.remove(k);
                }
                2 if k + 1 < c.len() => c.swap(k, k + 1),
                3 if k < c.len() => {
                    // keeps the length in bytes
                    let l = x.len_utf8();
                    if k + l <= c.len() {
                        c.splice(k..k + l, [x]);
                    }
                }
                _ if k < c.len() => c[k] = x,
                _ => {}
            }
        }
        c.into_iter().collect()
    }
}
fn base64(d: &[u8], url: bool) -> String {
    let al: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(if url { ['-', '_'] } else { ['+', '/'] }).collect();
    let bits = bytes_to_bits(d, d.len() * 8);
    let mut s = String::new();
    for c in bits.as_bytes().chunks(6) {
        let mut x = String::from_utf8(c.to_vec()).unwrap();
        while x.len() < 6 {
            x.push('0');
        }
        s.push(al[bits_u64(&x) as usize]);
    }
    while s.len() % 4 != 0 {
        s.push('=');
    }
    s
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut g = G { r: Rng::new(seed), v: vec![] };
    let mut m = M::default();
    let mut ev = Vec::new();
    for _ in 0..len {
        let mut op = match g.r.below(16) {
            0..=2 => {
                let mut a = g.addr();
                a["op"] = json!("make");
                a
            }
            3 => {
                let data = g.var();
                let n = if g.r.flip() { (data.len() + 8 - g.r.below(17).min(data.len() + 8)).min(600) } else { g.r.below(600) };
                // whole bytes
                let data = format!("{data}{}", "0".repeat((8 - data.len() % 8) % 8));
                json!({"op": "odd", "t": *g.r.pick(&["ext", "var"]), "wc": g.wc(32), "data": data, "n": n})
            }
            4 | 5 => {
                let mut v = g.valid_bits();
                match g.r.below(6) {
                    0 => v.truncate(g.r.below(v.len() + 1)),
                    1 => {
                        let n = g.r.below(100);
                        v += &g.r.mixed_bits(n);
                    }
                    2 => {
                        let n = g.r.below(10).min(v.len() - 1);
                        let c = if v.as_bytes()[n] == b'1' { "0" } else { "1" };
                        v.replace_range(n..n + 1, c);
                    }
                    3 => {
                        let n = g.r.below(700);
                        v = g.r.mixed_bits(n);
                    }
                    _ => {}
                }
                json!({"op": "load", "what": *g.r.pick(&["int", "int", "std"]), "v": v})
            }
            6 | 7 => {
                let mut pair: Vec<Json> = Vec::new();
                while pair.len() < 2 {
                    let mut a = g.addr();
                    if pair.len() == 1 && g.r.chance(1, 3) {
                        a = pair[0].clone();
                        if g.r.flip() {
                            a["any"] = json!(g.any());
                        }
                        if g.r.flip() && js(&a["t"]) == "std" {
                            a["v"] = json!(g.acc());
                        }
                        if g.r.flip() {
                            a["wc"] = json!(g.wc(js(&a["wc"]).len()));
                        }
                    }
                    let n = js(&a["any"]).len();
                    if js(&a["t"]) != "ext" && (1..=30).contains(&n) && js(&a["v"]).len() <= 511 {
                        pair.push(a);
                    }
                }
                json!({"op": "cmp", "a": pair[0], "b": pair[1]})
            }
            8 => json!({"op": "show", "any": "-", "wc": g.wc(8), "v": g.acc(), "bounce": g.r.flip(), "test": g.r.flip()}),
            9 => json!({"op": "key", "any": if g.r.chance(1, 6) { "101" } else { "-" }, "wc": g.wc(8), "v": g.acc()}),
            10 => {
                let v = if g.r.chance(2, 3) { format!("100{}{}", g.wc(8), g.acc()) } else { g.r.mixed_bits(267) };
                json!({"op": "unkey", "v": v})
            }
            _ => {
                let (s, what) = g.text();
                let s = g.damage(&s);
                json!({"op": "parse", "what": what, "s": s, "f": [g.r.chance(2, 3), g.r.flip(), g.r.flip()]})
            }
        };
        op["r"] = m.run(&op);
        ev.push(op);
    }
    Trace { cfg: json!({"none": 0}), cells: vec![], ev }
}
