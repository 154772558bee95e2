//! Values of the contract ABI, identifiers of functions and events, calls and initial data.
use std::sync::Arc;

use bytes::Bytes;
use ed25519_dalek::{SigningKey, VerifyingKey};
use num_bigint::{BigInt, BigUint, Sign};
use tycho_types::abi::*;
use tycho_types::cell::{Load, Store};
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::tlb::damage;
use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
}
fn version(v: &Json) -> AbiVersion {
    AbiVersion::new(ju(&v[0]) as u8, ju(&v[1]) as u8)
}
fn plain(t: &Json) -> PlainAbiType {
    ty(t).as_plain().unwrap()
}
fn ty(t: &Json) -> AbiType {
    let inner = |i: usize| Arc::new(ty(&t[i]));
    let n = || ju(&t[1]);
    match js(&t[0]) {
        "uint" => AbiType::Uint(n() as u16),
        "int" => AbiType::Int(n() as u16),
        "varuint" => AbiType::varuint(n() as u8),
        "varint" => AbiType::varint(n() as u8),
        "bool" => AbiType::Bool,
        "cell" => AbiType::Cell,
        "address" => AbiType::Address,
        "bytes" => AbiType::Bytes,
        "fixedbytes" => AbiType::FixedBytes(n()),
        "string" => AbiType::String,
        "token" => AbiType::Token,
        "tuple" => AbiType::unnamed_tuple(t[1].as_array().unwrap().iter().map(ty)),
        "array" => AbiType::array(inner(1)),
        "fixedarray" => AbiType::fixedarray(inner(1), ju(&t[2])),
        "map" => AbiType::map(plain(&t[1]), inner(2)),
        "optional" => AbiType::optional(inner(1)),
        "ref" => AbiType::reference(inner(1)),
        x => panic!("type {x}"),
    }
}
fn big(bits: &str) -> BigUint {
    BigUint::parse_bytes(format!("0{bits}").as_bytes(), 2).unwrap()
}
fn signed(v: &Json) -> BigInt {
    BigInt::from_biguint(if ju(&v[0]) == 1 { Sign::Minus } else { Sign::Plus }, big(js(&v[1])))
}
fn unsigned(v: &Json) -> BigUint {
    assert_eq!(ju(&v[0]), 0);
    big(js(&v[1]))
}
fn mag(v: &BigUint) -> String {
    if *v == BigUint::default() { String::new() } else { v.to_str_radix(2) }
}
fn addr(bits: &str) -> IntAddr {
    let mut b = CellBuilder::new();
    store_bits(&mut b, bits).unwrap();
    let c = b.build().unwrap();
    let mut s = c.as_slice().unwrap();
    let a = IntAddr::load_from(&mut s).unwrap();
    assert!(s.is_data_empty());
    a
}
fn addr_bits(a: &IntAddr) -> String {
    let mut b = CellBuilder::new();
    a.store_into(&mut b, Cell::empty_context()).unwrap();
    slice_bits(&b.as_full_slice())
}
fn named(i: usize, v: AbiValue) -> NamedAbiValue {
    NamedAbiValue::from_index(i, v)
}
impl M {
    fn value(&self, t: &Json, v: &Json) -> AbiValue {
        let list = |u: &Json, v: &Json| v.as_array().unwrap().iter().map(|v| self.value(u, v)).collect::<Vec<_>>();
        match (js(&t[0]), ty(t)) {
            (_, AbiType::Uint(n)) => AbiValue::Uint(n, unsigned(v)),
            (_, AbiType::Int(n)) => AbiValue::Int(n, signed(v)),
            (_, AbiType::VarUint(n)) => AbiValue::VarUint(n, unsigned(v)),
            (_, AbiType::VarInt(n)) => AbiValue::VarInt(n, signed(v)),
            (_, AbiType::Bool) => AbiValue::Bool(ju(v) == 1),
            (_, AbiType::Cell) => AbiValue::Cell(self.it.get(ju(v))),
            (_, AbiType::Address) => AbiValue::Address(Box::new(addr(js(v)))),
            (_, AbiType::Bytes) => AbiValue::Bytes(Bytes::from(bits_to_bytes(js(v)))),
            (_, AbiType::FixedBytes(_)) => AbiValue::FixedBytes(Bytes::from(bits_to_bytes(js(v)))),
            (_, AbiType::String) => AbiValue::String(String::from_utf8(bits_to_bytes(js(v))).unwrap()),
            (_, AbiType::Token) => {
                let n: u128 = unsigned(v).try_into().unwrap();
                AbiValue::Token(Tokens::new(n))
            }
            (_, AbiType::Tuple(_)) => AbiValue::Tuple(t[1].as_array().unwrap().iter().zip(v.as_array().unwrap()).enumerate().map(|(i, (t, v))| named(i, self.value(t, v))).collect()),
            (_, AbiType::Array(u)) => AbiValue::Array(u, list(&t[1], v)),
            (_, AbiType::FixedArray(u, _)) => AbiValue::FixedArray(u, list(&t[1], v)),
            (_, AbiType::Map(k, u)) => AbiValue::Map(k, u, v.as_array().unwrap().iter().map(|e| (self.key(&t[1], &e[0]), self.value(&t[2], &e[1]))).collect()),
            (_, AbiType::Optional(u)) => AbiValue::Optional(u, v.as_array().unwrap().first().map(|v| Box::new(self.value(&t[1], v)))),
            (_, AbiType::Ref(_)) => AbiValue::Ref(Box::new(self.value(&t[1], v))),
        }
    }
    fn key(&self, t: &Json, v: &Json) -> PlainAbiValue {
        match self.value(t, v) {
            AbiValue::Uint(n, v) => PlainAbiValue::Uint(n, v),
            AbiValue::Int(n, v) => PlainAbiValue::Int(n, v),
            AbiValue::Bool(v) => PlainAbiValue::Bool(v),
            AbiValue::Address(v) => PlainAbiValue::Address(v),
            _ => panic!("key"),
        }
    }
    fn back(&mut self, v: &AbiValue) -> Json {
        let bits = |b: &[u8]| json!(bytes_to_bits(b, b.len() * 8));
        match v {
            AbiValue::Uint(_, v) | AbiValue::VarUint(_, v) => json!([0, mag(v)]),
            AbiValue::Int(_, v) | AbiValue::VarInt(_, v) => json!([(v.sign() == Sign::Minus) as u8, mag(v.magnitude())]),
            AbiValue::Bool(v) => json!(*v as u8),
            AbiValue::Cell(v) => json!(self.it.add(v)),
            AbiValue::Address(v) => json!(addr_bits(v)),
            AbiValue::Bytes(v) | AbiValue::FixedBytes(v) => bits(v),
            AbiValue::String(v) => bits(v.as_bytes()),
            AbiValue::Token(v) => json!([0, mag(&BigUint::from(v.into_inner()))]),
            AbiValue::Tuple(v) => json!(v.iter().map(|v| self.back(&v.value)).collect::<Vec<_>>()),
            AbiValue::Array(_, v) | AbiValue::FixedArray(_, v) => json!(v.iter().map(|v| self.back(v)).collect::<Vec<_>>()),
            AbiValue::Map(_, _, v) => json!(v.iter().map(|(k, v)| json!([self.back(&k.clone().into()), self.back(v)])).collect::<Vec<_>>()),
            AbiValue::Optional(_, v) => json!(v.iter().map(|v| self.back(v)).collect::<Vec<_>>()),
            AbiValue::Ref(v) => self.back(v),
        }
    }
    fn backs(&mut self, v: &[NamedAbiValue]) -> Json {
        json!(v.iter().map(|v| self.back(&v.value)).collect::<Vec<_>>())
    }
    fn values(&self, ts: &Json, vs: &Json) -> Vec<NamedAbiValue> {
        ts.as_array().unwrap().iter().zip(vs.as_array().unwrap()).enumerate().map(|(i, (t, v))| named(i, self.value(t, v))).collect()
    }
    fn built<E>(&mut self, r: Result<CellBuilder, E>) -> usize {
        r.ok().and_then(|b| b.build().ok()).map_or(0, |c| self.it.add(&c))
    }
    fn put<E>(&mut self, r: Result<Cell, E>) -> usize {
        r.ok().map_or(0, |c| self.it.add(&c))
    }
}
fn named_types(ts: &Json) -> Vec<NamedAbiType> {
    ts.as_array().unwrap().iter().enumerate().map(|(i, t)| NamedAbiType::from_index(i, ty(t))).collect()
}
fn headers(v: &Json) -> Vec<AbiHeaderType> {
    v.as_array().unwrap().iter().map(|h| js(h).parse().unwrap()).collect()
}
/// The JSON description of a contract of one function and one event.
fn contract(op: &Json) -> Contract {
    let list = |q: &Json| serde_json::to_value(named_types(q)).unwrap();
    let (a, b) = (ju(&op["ver"][0]), ju(&op["ver"][1]));
    let mut f = json!({"name": op["name"], "inputs": list(&op["ins"]), "outputs": list(&op["outs"])});
    let mut e = json!({"name": op["name"], "inputs": list(&op["ins"])});
    if let Some(id) = op["id"].as_str().filter(|s| !s.is_empty()) {
        let id = format!("0x{:x}", bits_u64(id));
        f["id"] = json!(id);
        e["id"] = json!(id);
    }
    let mut c = json!({"header": op["headers"], "functions": [f], "events": [e]});
    c["ABI version"] = json!(a);
    if b > 0 || a == 2 && js(&op["name"]).len() % 2 == 0 {
        c["version"] = json!(format!("{a}.{b}"));
    }
    serde_json::from_str(&c.to_string()).unwrap()
}
fn function(op: &Json) -> Function {
    if js(&op["via"]) == "json" {
        return contract(op).functions.remove(js(&op["name"])).unwrap();
    }
    let f = Function::builder(version(&op["ver"]), js(&op["name"])).with_headers(headers(&op["headers"])).with_inputs(named_types(&op["ins"])).with_outputs(named_types(&op["outs"]));
    match op["id"].as_str().filter(|s| !s.is_empty()) {
        Some(id) => f.with_id(bits_u64(id) as u32),
        None => f,
    }
    .build()
}
fn event(op: &Json) -> Event {
    if js(&op["via"]) == "json" {
        return contract(op).events.remove(js(&op["name"])).unwrap();
    }
    let e = Event::builder(version(&op["ver"]), js(&op["name"])).with_inputs(named_types(&op["ins"]));
    match op["id"].as_str().filter(|s| !s.is_empty()) {
        Some(id) => e.with_id(bits_u64(id) as u32),
        None => e,
    }
    .build()
}
fn id(v: u32) -> String {
    u128_bits(v as u128, 32)
}
fn verifying(bits: &str) -> VerifyingKey {
    VerifyingKey::from_bytes(&bits_to_bytes(bits).try_into().unwrap()).unwrap()
}
/// A contract with initial data and storage fields.
fn storage(op: &Json) -> Contract {
    let data = op["data"].as_array().unwrap().iter().map(|d| {
        let t = NamedAbiType::new(js(&d[0]), ty(&d[2]));
        let mut t = serde_json::to_value(t).unwrap();
        t["key"] = json!(bits_u64(js(&d[1])));
        t
    });
    let mut c = json!({"functions": [], "data": data.collect::<Vec<_>>(), "fields": serde_json::to_value(named_types(&op["fields"])).unwrap()});
    c["version"] = json!(format!("{}.{}", op["ver"][0], op["ver"][1]));
    serde_json::from_str(&c.to_string()).unwrap()
}
fn some_err(e: impl std::fmt::Display) -> Json {
    json!(["err", e.to_string()])
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        let ver = version(&op["ver"]);
        match js(&op["op"]) {
            "enc" => {
                let (t, v) = (ty(&op["ty"]), self.value(&op["ty"], &op["v"]));
                if !v.has_type(&t) || v.get_type() != t || v.check_type(&t).is_err() || v.display_type().to_string() != t.to_string() {
                    return json!(["differs", "the value is not of its type"]);
                }
                let one = v.make_cell(ver);
                let mut more = vec![AbiValue::tuple_to_cell(&[v.clone()], ver), NamedAbiValue::tuple_to_cell(&[named(7, v.clone())], ver), named(3, v.clone()).make_cell(ver), v.make_builder(ver).and_then(|b| b.build())];
                if let AbiValue::Tuple(items) = &v {
                    more.push(NamedAbiValue::tuple_to_cell(items, ver));
                    more.push(AbiValue::tuple_to_cell(&items.iter().map(|v| v.value.clone()).collect::<Vec<_>>(), ver));
                }
                if more.iter().any(|m| m.as_ref().ok() != one.as_ref().ok()) {
                    return json!(["differs", "ways to encode"]);
                }
                match one {
                    Ok(c) => json!(["ok", self.it.add(&c)]),
                    Err(e) => err(&e),
                }
            }
            "dec" => {
                let t = ty(&op["ty"]);
                let c = self.it.get(ju(&op["cell"]));
                let mut s = match c.as_slice() {
                    Ok(s) => s,
                    Err(e) => return err(&e),
                };
                let part = jb(&op["partial"]);
                let s0 = s;
                let r = if part { AbiValue::load_partial(&t, ver, &mut s) } else { AbiValue::load(&t, ver, &mut s) };
                let nt = NamedAbiType::from_index(4, t.clone());
                let mut more = Vec::new();
                {
                    let mut z = s0;
                    let v = if part { NamedAbiValue::load_partial(&nt, ver, &mut z) } else { NamedAbiValue::load(&nt, ver, &mut z) };
                    more.push((v.ok().map(|v| v.value), z));
                    let mut z = s0;
                    let ts = std::slice::from_ref(&t);
                    let v = if part { AbiValue::load_tuple_partial(ts, ver, &mut z) } else { AbiValue::load_tuple(ts, ver, &mut z) };
                    more.push((v.ok().map(|mut v| v.pop().unwrap()), z));
                    let mut z = s0;
                    let ts = std::slice::from_ref(&nt);
                    let v = if part { NamedAbiValue::load_tuple_partial(ts, ver, &mut z) } else { NamedAbiValue::load_tuple(ts, ver, &mut z) };
                    more.push((v.ok().map(|mut v| v.pop().unwrap().value), z));
                }
                if more.iter().any(|(v, z)| v.as_ref() != r.as_ref().ok() || v.is_some() && (z.size_bits(), z.size_refs()) != (s.size_bits(), s.size_refs())) {
                    return json!(["differs", "ways to decode"]);
                }
                match r {
                    Ok(v) => {
                        if !v.has_type(&t) {
                            // Missing items of an array of fixed size are an error.
                            return json!(["differs", "not of the type"]);
                        }
                        json!(["ok", self.back(&v), s.size_bits(), s.size_refs()])
                    }
                    Err(e) => some_err(e),
                }
            }
            "default" => {
                let t = ty(&op["ty"]);
                let v = t.make_default_value();
                if !v.has_type(&t) {
                    return json!(["differs", "not of the type"]);
                }
                json!(["ok", self.back(&v)])
            }
            "type" => {
                // The description of a type: its text form and JSON form.
                let t = ty(&op["ty"]);
                let n = NamedAbiType::new("it", t.clone());
                let j = serde_json::to_value(&n).unwrap();
                let back: NamedAbiType = match serde_json::from_str(&j.to_string()) {
                    Ok(n) => n,
                    Err(e) => return some_err(e),
                };
                if back != n {
                    return json!(["differs", "the description is read as another type"]);
                }
                let m = t.max_size();
                json!(["ok", t.to_string(), j["type"], m.bit_count, m.cell_count])
            }
            "fn" => {
                let (f, e) = (function(op), event(op));
                let c = contract(op);
                let find = |i: u32, input: bool| c.find_function_by_id(i, input).is_some();
                json!(["ok", f.display_signature().to_string(), id(f.input_id), id(f.output_id), e.display_signature().to_string(), id(e.id),
                    [find(f.input_id, true), find(f.output_id, false), find(f.input_id, false), find(f.output_id, true), c.find_event_by_id(e.id).is_some(), c.find_event_by_id(!e.id).is_some()]])
            }
            "call" => {
                let f = function(op);
                let vals = self.values(&op["ins"], &op["vals"]);
                let key = match js(&op["pubkey"]) {
                    "" => None,
                    k => Some(verifying(k)),
                };
                let to = match addr(js(&op["addr"])) {
                    IntAddr::Std(a) => a,
                    _ => return json!(["tool", "addr"]),
                };
                let internal = f.encode_internal_input(&vals);
                let internal = self.built(internal);
                let ev = event(op).encode_internal_input(&vals);
                let ev = self.built(ev);
                let mut out = f.clone();
                out.outputs = f.inputs.clone();
                let output = out.encode_output(&vals);
                let output = self.built(output);
                let msg = f.encode_internal_message(&vals, IntAddr::Std(to.clone()), Tokens::new(77), true, None);
                if let Ok(m) = &msg {
                    let id = self.it.add(&m.body.1);
                    let ok = matches!(&m.info, RelaxedMsgInfo::Int(i) if i.dst == IntAddr::Std(to.clone()) && i.value.tokens == Tokens::new(77) && i.bounce) && m.init.is_none();
                    if !ok || id != internal || !m.body.0.is_full(m.body.1.as_ref()) {
                        return json!(["differs", "the internal message"]);
                    }
                }
                let time = bits_u64(js(&op["time"]));
                let mut x = f.encode_external(&vals).with_time(time).with_address(&to);
                if let Some(e) = op["expire"].as_str().filter(|s| !s.is_empty()) {
                    x.set_expire_at(bits_u64(e) as u32);
                }
                if let Some(k) = &key {
                    x.set_pubkey(k);
                }
                let plain = x.build_input_without_signature();
                let bare = match &plain {
                    Ok((_, c)) => self.it.add(c),
                    Err(_) => 0,
                };
                if let (Ok((e, c)), Ok((e2, m))) = (&plain, x.build_message_without_signature(&to)) {
                    if *e != e2 || m.body.1 != *c || !matches!(&m.info, MsgInfo::ExtIn(i) if i.dst == IntAddr::Std(to.clone())) {
                        return json!(["differs", "the message without a signature"]);
                    }
                }
                let body = match x.build_input() {
                    Ok(b) => b,
                    Err(_) => return json!(["ok", [internal, ev, output, bare], []]),
                };
                let payload = self.it.add(&body.payload);
                let sig: [u8; 64] = bits_to_bytes(js(&op["sig"])).try_into().unwrap();
                let with = self.put(body.fill_signature(Some(&sig)));
                let none = self.put(body.fill_signature(None));
                let (expire, hash) = (body.expire_at, body.hash);
                let m = x.build_message(&to).unwrap();
                if m.expire_at() != expire || m.body.hash != hash {
                    return json!(["differs", "the unsigned message"]);
                }
                let m = m.fill_signature(Some(&sig));
                if m.ok().map_or(0, |m| self.it.add(&m.body.1)) != with {
                    return json!(["differs", "the signed message"]);
                }
                // A real signature is of the number of the network and the hash.
                let sk = SigningKey::from_bytes(&[7; 32]);
                let net = Some(js(&op["net"])).filter(|n| !n.is_empty()).map(|n| bits_u64(n) as u32 as i32);
                let text = extend_signature_with_id(hash.as_slice(), net).into_owned();
                let real = sign_with_signature_id(&sk, hash.as_slice(), net);
                if sk.verifying_key().verify_strict(&text, &real).is_err() {
                    return json!(["differs", "the signature"]);
                }
                let want = body.fill_signature(Some(&real.to_bytes())).ok();
                if body.sign(&sk, net).ok() != want || x.build_message(&to).unwrap().sign(&sk, net).ok().map(|m| m.body.1) != want {
                    return json!(["differs", "a signed body"]);
                }
                json!(["ok", [internal, ev, output, bare], [payload, with, none, hex(&hash.0), id(expire), hex(&text)]])
            }
            "input" => {
                let f = function(op);
                let c = self.it.get(ju(&op["cell"]));
                let mut s = match c.as_slice() {
                    Ok(s) => s,
                    Err(e) => return err(&e),
                };
                let part = jb(&op["partial"]);
                let s0 = s;
                let (r, q) = match js(&op["how"]) {
                    "external" => (f.decode_external_input_ext(&mut s, part), f.decode_external_input(s0)),
                    "internal" => (f.decode_internal_input_ext(&mut s, part), f.decode_internal_input(s0)),
                    "event" => (event(op).decode_internal_input_ext(&mut s, part), event(op).decode_internal_input(s0)),
                    _ => {
                        let mut f = f;
                        f.outputs = f.inputs.clone();
                        (f.decode_output_ext(&mut s, part), f.decode_output(s0))
                    }
                };
                if !part && r.as_ref().ok() != q.as_ref().ok() {
                    return json!(["differs", "ways to decode"]);
                }
                match r {
                    Ok(v) => {
                        let v = self.backs(&v);
                        json!(["ok", v, s.size_bits(), s.size_refs()])
                    }
                    Err(e) => some_err(e),
                }
            }
            "init" => {
                let c = storage(op);
                let vals: Vec<_> = op["vals"].as_array().unwrap().iter().map(|e| {
                    let t = op["data"].as_array().unwrap().iter().find(|d| d[0] == e[0]).map_or(&e[2], |d| &d[2]);
                    NamedAbiValue { name: js(&e[0]).into(), value: self.value(t, &e[1]) }
                }).collect();
                let key = verifying(js(&op["pubkey"]));
                match ju(&op["old"]) {
                    0 => {
                        let r = c.encode_init_data(&key, &vals);
                        json!(["ok", self.put(r)])
                    }
                    old => {
                        let old = self.it.get(old);
                        let r = c.update_init_data(jb(&op["set"]).then_some(&key), &vals, &old);
                        json!(["ok", self.put(r)])
                    }
                }
            }
            "uninit" => {
                let c = storage(op);
                let data = self.it.get(ju(&op["cell"]));
                match c.decode_init_data(data.as_ref()) {
                    Ok(v) => {
                        let mut v: Vec<_> = v.iter().map(|n| (n.name.to_string(), self.back(&n.value))).collect();
                        v.sort_by(|a, b| a.0.cmp(&b.0));
                        json!(["ok", v.into_iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()])
                    }
                    Err(e) => some_err(e),
                }
            }
            "fields" => {
                let c = storage(op);
                let vals = self.values(&op["fields"], &op["vals"]);
                let r = c.encode_fields(&vals);
                let id = self.built(r);
                json!(["ok", id])
            }
            "unfields" => {
                let c = storage(op);
                let data = self.it.get(ju(&op["cell"]));
                let mut s = match data.as_slice() {
                    Ok(s) => s,
                    Err(e) => return err(&e),
                };
                let part = jb(&op["partial"]);
                let q = c.decode_fields(s);
                let r = c.decode_fields_ext(&mut s, part);
                if !part && r.as_ref().ok() != q.as_ref().ok() {
                    return json!(["differs", "ways to decode"]);
                }
                match r {
                    Ok(v) => {
                        let v = self.backs(&v);
                        json!(["ok", v, s.size_bits(), s.size_refs()])
                    }
                    Err(e) => some_err(e),
                }
            }
            x => json!(["tool", x]),
        }
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

fn rand_bits_len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 1,
        1 => r.range(1, 8),
        2 => *r.pick(&[8, 16, 32, 64, 128, 256]),
        3 => *r.pick(&[63, 64, 65, 7, 9, 127, 129, 255, 257]),
        4 => r.range(900, 1023),
        5 => *r.pick(&[1023, 1022, 1011, 979, 991, 500, 511, 512, 432, 510]),
        _ => r.range(1, 1023),
    }
}
fn rand_key(r: &mut Rng) -> Json {
    match r.below(6) {
        0 => json!(["bool"]),
        1 => json!(["address"]),
        2 | 3 => json!(["uint", *r.pick(&[1, 2, 8, 16, 32, 64, 65, 256, 1000, 1011])]),
        _ => json!(["int", *r.pick(&[1, 2, 8, 16, 32, 64, 65, 256, 1000])]),
    }
}
fn rand_ty(r: &mut Rng, depth: usize) -> Json {
    if depth > 0 && r.chance(2, 5) {
        return match r.below(7) {
            0 | 1 => {
                let n = 1 + r.below(5);
                json!(["tuple", (0..n).map(|_| rand_ty(r, depth - 1)).collect::<Vec<_>>()])
            }
            2 => json!(["array", rand_ty(r, depth - 1)]),
            3 => json!(["fixedarray", rand_ty(r, depth - 1), r.below(4)]),
            4 => json!(["map", rand_key(r), rand_ty(r, depth - 1)]),
            5 => json!(["optional", rand_ty(r, depth - 1)]),
            _ => json!(["ref", rand_ty(r, depth - 1)]),
        };
    }
    match r.below(14) {
        0..3 => json!(["uint", rand_bits_len(r)]),
        3 | 4 => json!(["int", rand_bits_len(r)]),
        5 => json!(["varuint", *r.pick(&[2, 3, 4, 5, 8, 16, 32, 33, 64, 127, 128])]),
        6 => json!(["varint", *r.pick(&[2, 3, 4, 5, 8, 16, 32, 33, 64, 127, 128])]),
        7 => json!(["bool"]),
        8 | 9 => json!(["cell"]),
        10 => json!(["address"]),
        11 => match r.below(3) {
            0 => json!(["bytes"]),
            1 => json!(["string"]),
            _ => json!(["fixedbytes", r.below(5)]),
        },
        12 => json!(["token"]),
        _ => json!(["bool"]),
    }
}
fn rand_num(r: &mut Rng, n: usize, sign: bool, any: bool) -> Json {
    // At most n bits; rarely one more.
    let most = if any && r.chance(1, 40) { n + 1 } else { n };
    let k = match r.below(5) {
        0 => 0,
        1 => most,
        2 => most.saturating_sub(1),
        3 => 8 * r.below(most / 8 + 1),
        _ => r.below(most + 1),
    };
    let bits = if k == 0 { String::new() } else { format!("1{}", match r.below(3) { 0 => "0".repeat(k - 1), 1 => "1".repeat(k - 1), _ => r.bits(k - 1) }) };
    json!([if sign && k > 0 && r.flip() { 1 } else { 0 }, bits])
}
fn rand_addr(r: &mut Rng, std: bool) -> String {
    if std || r.chance(2, 3) {
        return format!("100{}{}", r.bits(8), r.bits(256));
    }
    let any = if r.flip() { "0".to_owned() } else { let d = r.range(1, 30); format!("1{}{}", u128_bits(d as u128, 5), r.bits(d)) };
    if r.flip() {
        return format!("10{any}{}", r.bits(264));
    }
    let n = match r.below(4) { 0 => 511, 1 => 0, _ => r.below(512) };
    format!("11{any}{}{}{}", u128_bits(n as u128, 9), r.bits(32), r.bits(n))
}
fn rand_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        s.push(*r.pick(&['a', 'Z', '0', 'é', '€', '𝄞', '\u{7ff}', '\u{ffff}', '\u{d7ff}', '\u{10ffff}', '\0']));
    }
    bytes_to_bits(s.as_bytes(), s.len() * 8)
}
fn rand_value(r: &mut Rng, m: &mut M, t: &Json, size: &mut usize) -> Json {
    let n = || ju(&t[1]);
    let mut few = |r: &mut Rng| {
        let k = r.below(4).min(*size);
        *size -= k;
        k
    };
    match js(&t[0]) {
        "uint" => rand_num(r, n(), false, true),
        "int" => rand_num(r, n(), true, true),
        "varuint" => rand_num(r, 8 * (n() - 1), false, true),
        "varint" => rand_num(r, 8 * (n() - 1), true, true),
        "token" => rand_num(r, 120, false, true),
        "bool" => json!(r.below(2)),
        "cell" => {
            let c = if r.chance(1, 8) { CellBuilder::from_raw_data(&[2; 33], 264).map(|mut b| { b.set_exotic(true); b.build().unwrap() }).unwrap() } else { rand_cell(r, 1, 40) };
            json!(m.it.add(&c))
        }
        "address" => json!(rand_addr(r, false)),
        "bytes" | "string" => {
            let k = match r.below(5) { 0 => 0, 1 => *r.pick(&[126, 127, 128, 254, 255, 381]), 2 => r.below(400), _ => r.below(6) };
            json!(if js(&t[0]) == "string" { rand_text(r, k) } else { r.bits(8 * k) })
        }
        "fixedbytes" => json!(r.bits(8 * n())),
        "tuple" => json!(t[1].as_array().unwrap().iter().map(|t| rand_value(r, m, t, size)).collect::<Vec<_>>()),
        "array" => {
            let k = few(r);
            json!((0..k).map(|_| rand_value(r, m, &t[1], size)).collect::<Vec<_>>())
        }
        "fixedarray" => json!((0..ju(&t[2])).map(|_| rand_value(r, m, &t[1], size)).collect::<Vec<_>>()),
        "map" => {
            let k = few(r);
            let mut q: Vec<Json> = Vec::new();
            for _ in 0..k {
                let key = match js(&t[1][0]) {
                    "address" => {
                        let std = !r.chance(1, 20);
                        json!(rand_addr(r, std))
                    }
                    "bool" => json!(r.below(2)),
                    x => rand_num(r, ju(&t[1][1]) - (x == "int") as usize, x == "int", false),
                };
                if q.iter().all(|e| e[0] != key) {
                    q.push(json!([key, rand_value(r, m, &t[2], size)]));
                }
            }
            json!(q)
        }
        "optional" => {
            let k = r.chance(2, 3) as usize;
            json!((0..k).map(|_| rand_value(r, m, &t[1], size)).collect::<Vec<_>>())
        }
        "ref" => rand_value(r, m, &t[1], size),
        x => panic!("{x}"),
    }
}
/// Another type that may share a cell form.
fn other_ty(r: &mut Rng, t: &Json) -> Json {
    match js(&t[0]) {
        "uint" => json!(["int", t[1]]),
        "int" => json!(["uint", t[1]]),
        "varuint" => json!(["varint", t[1]]),
        "varint" => json!(["varuint", t[1]]),
        "bytes" => json!(["string"]),
        "string" => json!(["cell"]),
        "cell" => json!(["bytes"]),
        "tuple" => {
            let mut q = t[1].as_array().unwrap().clone();
            let k = r.below(q.len());
            q[k] = other_ty(r, &q[k]);
            json!(["tuple", q])
        }
        "array" => json!(["array", other_ty(r, &t[1])]),
        "fixedarray" => json!(["fixedarray", t[1], r.below(4)]),
        "map" => json!(["map", t[1], other_ty(r, &t[2])]),
        "optional" | "ref" => json!([t[0], other_ty(r, &t[1])]),
        _ => rand_ty(r, 1),
    }
}
const VERSIONS: [[u8; 2]; 7] = [[1, 0], [2, 0], [2, 1], [2, 2], [2, 3], [2, 4], [2, 7]];
pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    let mut go = |m: &mut M, mut op: Json| {
        let res = m.run(&op);
        op["r"] = res.clone();
        ev.push(op);
        res
    };
    for _ in 0..len {
        let ver = *r.pick(&VERSIONS);
        let mut types = |r: &mut Rng, n: usize| (0..r.below(n + 1)).map(|_| rand_ty(r, 2)).collect::<Vec<_>>();
        match sel {
            "value" => {
                let depth = r.below(4);
                let t = if r.chance(2, 3) { json!(["tuple", (0..1 + r.below(8)).map(|_| rand_ty(&mut r, depth)).collect::<Vec<_>>()]) } else { rand_ty(&mut r, depth) };
                let v = rand_value(&mut r, &mut m, &t, &mut 20);
                if r.chance(1, 6) {
                    go(&mut m, json!({"op": "type", "ver": ver, "ty": t}));
                    go(&mut m, json!({"op": "default", "ver": ver, "ty": t}));
                }
                let e = go(&mut m, json!({"op": "enc", "ver": ver, "ty": t, "v": v}));
                if e[0] != "ok" {
                    continue;
                }
                let id = ju(&e[1]);
                go(&mut m, json!({"op": "dec", "ver": ver, "ty": t, "cell": id, "partial": r.chance(1, 4)}));
                if r.flip() {
                    let u = other_ty(&mut r, &t);
                    let v2 = *r.pick(&VERSIONS);
                    go(&mut m, json!({"op": "dec", "ver": v2, "ty": u, "cell": id, "partial": r.flip()}));
                }
                let c = m.it.get(id);
                let c = damage(&mut r, &c, 2);
                let id = m.it.add(&c);
                go(&mut m, json!({"op": "dec", "ver": ver, "ty": t, "cell": id, "partial": r.flip()}));
            }
            "call" => {
                let ins = types(&mut r, 5);
                let vals: Vec<_> = ins.iter().map(|t| rand_value(&mut r, &mut m, t, &mut 10)).collect();
                let headers: Vec<_> = ["time", "expire", "pubkey"].into_iter().filter(|_| r.flip()).collect();
                let key = SigningKey::from_bytes(&r.hash()).verifying_key();
                let mut op = json!({"ver": ver, "headers": headers, "ins": ins, "outs": types(&mut r, 2), "name": *r.pick(&["f", "constructor", "_x9"]), "via": *r.pick(&["builder", "json"]), "id": if r.chance(1, 4) { r.bits(32) } else { String::new() }});
                op["op"] = json!("fn");
                go(&mut m, op.clone());
                op["op"] = json!("call");
                op["vals"] = json!(vals);
                op["time"] = json!(u128_bits(if r.flip() { 1_700_000_000_123 } else { bits_u128(&r.bits(42)) }, 64));
                op["expire"] = json!(if r.flip() { r.bits(32) } else { String::new() });
                op["pubkey"] = json!(if r.flip() { bytes_to_bits(key.as_bytes(), 256) } else { String::new() });
                op["addr"] = json!(rand_addr(&mut r, true));
                op["sig"] = json!(r.bits(512));
                op["net"] = json!(if r.flip() { r.bits(32) } else { String::new() });
                let e = go(&mut m, op.clone());
                if e[0] != "ok" {
                    continue;
                }
                for k in ["vals", "time", "expire", "pubkey", "addr", "sig", "net"] {
                    op.as_object_mut().unwrap().remove(k);
                }
                op["op"] = json!("input");
                let mut bodies = vec![("internal", ju(&e[1][0])), ("event", ju(&e[1][1])), ("output", ju(&e[1][2])), ("external", ju(&e[1][3]))];
                if e[2].as_array().unwrap().len() > 2 {
                    bodies.push(("external", ju(&e[2][1])));
                    bodies.push(("external", ju(&e[2][2])));
                }
                for (how, c) in bodies {
                    if c == 0 {
                        continue;
                    }
                    op["how"] = json!(how);
                    op["cell"] = json!(c);
                    op["partial"] = json!(r.chance(1, 4));
                    go(&mut m, op.clone());
                    if r.chance(1, 3) {
                        let x = m.it.get(c);
                        let x = damage(&mut r, &x, 1);
                        op["cell"] = json!(m.it.add(&x));
                        op["how"] = json!(*r.pick(&["internal", "event", "output", "external"]));
                        go(&mut m, op.clone());
                    }
                }
            }
            _ => {
                let names = ["a", "b", "c", "d"];
                let mut keys = vec![];
                let data: Vec<_> = names[..r.below(5)].iter().map(|n| {
                    let k = loop {
                        let k = if r.flip() { 1 + r.below(6) as u64 } else { bits_u64(&r.bits(64)) };
                        if k != 0 && !keys.contains(&k) {
                            break k;
                        }
                    };
                    keys.push(k);
                    // Fits a leaf of its own.
                    let t = loop {
                        let t = rand_ty(&mut r, 2);
                        let s = ty(&t).max_size();
                        if s.bit_count < 800 && s.cell_count < 4 {
                            break t;
                        }
                    };
                    json!([n, u128_bits(k as u128, 64), t])
                }).collect();
                let fields = types(&mut r, 6);
                let key = SigningKey::from_bytes(&r.hash()).verifying_key();
                let mut op = json!({"op": "init", "ver": ver, "data": data, "fields": fields, "pubkey": bytes_to_bits(key.as_bytes(), 256), "old": 0, "set": true});
                let mut some = |r: &mut Rng, m: &mut M| {
                    let mut q: Vec<_> = data.iter().filter(|_| r.flip()).cloned().collect::<Vec<_>>().iter().map(|d| json!([d[0], rand_value(r, m, &d[2], &mut 6), d[2]])).collect();
                    if r.chance(1, 10) {
                        q.push(json!(["nobody", 1, ["bool"]]));
                    }
                    q
                };
                op["vals"] = json!(some(&mut r, &mut m));
                let e = go(&mut m, op.clone());
                if e[0] == "ok" && e[1] != 0 {
                    let mut id = ju(&e[1]);
                    op["old"] = json!(id);
                    op["set"] = json!(r.flip());
                    op["vals"] = json!(some(&mut r, &mut m));
                    let e = go(&mut m, op.clone());
                    if e[0] == "ok" && e[1] != 0 && r.chance(3, 4) {
                        id = ju(&e[1]);
                    }
                    op["op"] = json!("uninit");
                    op["cell"] = json!(id);
                    op.as_object_mut().unwrap().remove("vals");
                    go(&mut m, op.clone());
                    let c = m.it.get(id);
                    let c = damage(&mut r, &c, 2);
                    op["cell"] = json!(m.it.add(&c));
                    go(&mut m, op.clone());
                }
                let vals: Vec<_> = fields.iter().map(|t| rand_value(&mut r, &mut m, t, &mut 10)).collect();
                let mut op = json!({"op": "fields", "ver": ver, "data": [], "fields": fields, "vals": vals});
                let e = go(&mut m, op.clone());
                if e[0] == "ok" && e[1] != 0 {
                    op["op"] = json!("unfields");
                    op.as_object_mut().unwrap().remove("vals");
                    op["cell"] = e[1].clone();
                    op["partial"] = json!(r.flip());
                    go(&mut m, op.clone());
                    let c = m.it.get(ju(&e[1]));
                    let c = damage(&mut r, &c, 2);
                    op["cell"] = json!(m.it.add(&c));
                    go(&mut m, op);
                }
            }
        }
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
