//! Dictionaries read from damaged, partial or foreign trees of cells.
use tycho_types::merkle::make_pruned_branch;
use tycho_types::prelude::*;

use crate::dict::Ex;
use crate::util::*;

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    let mut ex = open(cfg);
    let mut ev = Vec::new();
    for op in ops {
        go(&mut ex, &mut ev, op.clone());
    }
    Trace { cfg: cfg.clone(), cells: std::mem::take(&mut ex.it.table), ev }
}
fn open(cfg: &Json) -> Ex {
    let mut ex = Ex::new(cfg);
    ex.partial = true;
    ex.it = Interner::load(&cfg["cells"]);
    for (i, r) in cfg["roots"].as_array().unwrap().iter().enumerate() {
        ex.regs[i] = Some(ju(r)).filter(|x| *x != 0).map(|x| ex.it.get(x));
    }
    ex
}
fn go(ex: &mut Ex, ev: &mut Vec<Json>, mut op: Json) {
    op["r"] = ex.run(&op);
    ev.push(op);
}

/// The label at the front of some bits: its content and length; as lax as can be.
fn label(b: &str, m: usize) -> Option<(String, usize)> {
    let k = (usize::BITS - m.leading_zeros()) as usize;
    let num = |s: &str| usize::from_str_radix(s, 2).unwrap_or(0);
    if let Some(t) = b.strip_prefix('0') {
        let n = t.find('0')?;
        return Some((t.get(n + 1..2 * n + 1)?.to_owned(), 2 * n + 2));
    }
    if let Some(t) = b.strip_prefix("10") {
        let n = num(t.get(..k)?);
        return Some((t.get(k..k + n)?.to_owned(), 2 + k + n));
    }
    let t = b.strip_prefix("11")?;
    let n = num(t.get(1..1 + k)?);
    Some((t[..1].repeat(n), 3 + k))
}
/// A label in one of its forms.
fn write(r: &mut Rng, l: &str, m: usize) -> String {
    let k = (usize::BITS - m.leading_zeros()) as usize;
    let n = format!("{:b}", l.len());
    if r.chance(1, 3) || n.len() > k {
        return format!("0{}0{l}", "1".repeat(l.len()));
    }
    let n = if k == 0 { String::new() } else { format!("{:0>k$}", n) };
    let uniform = l.bytes().all(|c| c == l.as_bytes()[0]);
    if uniform && r.flip() {
        let b = if l.is_empty() { "1" } else { &l[..1] };
        return format!("11{b}{n}");
    }
    format!("10{n}{l}")
}
fn build(bits: &str, refs: &[Cell], exo: bool) -> Option<Cell> {
    let mut b = CellBuilder::new();
    b.set_exotic(exo);
    if bits.len() > 1023 || refs.len() > 4 {
        return None;
    }
    store_bits(&mut b, bits).unwrap();
    for c in refs {
        b.store_reference(c.clone()).unwrap();
    }
    b.build().ok()
}
fn nodes(c: &Cell, out: &mut Vec<Cell>) {
    out.push(c.clone());
    for i in 0..c.reference_count() {
        if out.len() < 60 {
            nodes(&c.reference_cloned(i).unwrap(), out);
        }
    }
}

/// A tree with something wrong in one node, `m` bits of the key being left.
fn damage(r: &mut Rng, c: &Cell, m: usize, all: &[Cell]) -> Option<Cell> {
    let bits = cell_bits(c.as_ref());
    let mut refs: Vec<Cell> = (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect();
    let lab = label(&bits, m);
    if let (Some((l, _)), true, true) = (&lab, refs.len() >= 2, r.chance(3, 4)) {
        if l.len() < m && !c.is_exotic() {
            let i = r.below(2);
            refs[i] = damage(r, &refs[i], m - l.len() - 1, all)?;
            return build(&bits, &refs, false);
        }
    }
    match (r.below(14), lab) {
        // Another form of the label
        (0 | 1, Some((l, n))) => build(&(write(r, &l, m) + &bits[n..]), &refs, false),
        // A longer or shorter label
        (2 | 3, Some((mut l, n))) => {
            let x = 1 + r.below(4);
            if r.flip() {
                l += &r.bits(x);
            } else {
                l.truncate(l.len().saturating_sub(x));
            }
            build(&(write(r, &l, m) + &bits[n..]), &refs, false)
        }
        // Cut short
        (4, _) => {
            let n = r.below(bits.len() + 1);
            build(&bits[..n], &refs, false)
        }
        (5, _) if !bits.is_empty() => {
            let i = r.below(bits.len().min(24));
            let mut b = bits.into_bytes();
            b[i] ^= 1;
            build(&String::from_utf8(b).unwrap(), &refs, false)
        }
        (6, _) if !refs.is_empty() => {
            refs.remove(r.below(refs.len()));
            build(&bits, &refs, false)
        }
        (7, _) => {
            refs.push(r.pick(all).clone());
            build(&bits, &refs, false)
        }
        (8, _) if refs.len() > 1 => {
            refs.swap(0, 1);
            build(&bits, &refs, false)
        }
        // A pruned branch, or any other special cell
        (9 | 10, _) => make_pruned_branch(c.as_ref(), 0, Cell::empty_context()).ok(),
        (11, _) => {
            let h = r.hash();
            build(&("00000010".to_owned() + &bytes_to_bits(&h, 256)), &[], true)
        }
        // The wrong subtree
        (12, _) => Some(r.pick(all).clone()),
        (13, _) => Some(rand_cell(r, 2, 40)),
        _ => None,
    }
}

const KINDS: &[(&str, u16)] = &[
    ("", 1), ("", 2), ("", 3), ("", 4), ("", 5), ("", 6), ("", 7), ("", 8), ("", 9), ("", 15), ("", 16), ("", 17), ("", 31),
    ("", 32), ("", 33), ("", 64), ("", 96), ("", 128), ("", 256), ("bool", 1), ("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16),
    ("u32", 32), ("i32", 32), ("u64", 64), ("pair", 96), ("hash", 256),
];
const AUG_KINDS: &[(&str, u16)] = &[("u8", 8), ("u8", 8), ("u16", 16), ("u32", 32), ("hash", 256)];

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let aug = sel == "aug";
    let (kind, n) = *r.pick(if aug { AUG_KINDS } else { KINDS });
    let n = n as usize;
    // The tree may have been made for keys of another length.
    let made = if !aug && r.chance(1, 10) { (n + 3).saturating_sub(1 + r.below(4)).max(1) } else { n };
    let mut pool: Vec<String> = Vec::new();
    for _ in 0..2 + r.below(8) {
        let k = if pool.is_empty() || r.chance(1, 3) {
            r.mixed_bits(made)
        } else {
            let mut k = r.pick(&pool).clone().into_bytes();
            k[r.below(made)] ^= 1;
            String::from_utf8(k).unwrap()
        };
        pool.push(k);
    }
    let mut mk = Ex::new(&json!({"n": made, "kind": kind, "aug": aug as u8}));
    let payload = rand_cell(r, 1, 30);
    let pid = mk.it.add(&payload);
    let value = |r: &mut Rng| {
        let nb = *r.pick(&[0, 1, 3, 8, 20, 40]);
        let refs: &[usize] = &[pid, pid, pid][..[0, 0, 0, 1, 1, 2, 3][r.below(7)]];
        let bits = r.mixed_bits(nb);
        if aug { json!([bits, &refs[..refs.len().min(1)], r.below(65536)]) } else { json!([bits, refs]) }
    };
    let lay = if aug { "aug" } else { "free" };
    let side = r.below(made.min(4));
    for _ in 0..1 + r.below(10) {
        let (d, k) = (r.below(2), r.pick(&pool).clone());
        // Sometimes siblings.
        let d = if seed % 3 == 0 { (&k[side..=side] == "1") as usize } else { d };
        mk.run(&json!({"op": "ins", "L": lay, "d": d, "k": k, "m": "set", "v": value(r)}));
    }
    let mut it = std::mem::take(&mut mk.it);
    let mut all = vec![payload.clone()];
    for c in mk.regs.iter().flatten() {
        nodes(c, &mut all);
    }
    let mut roots = Vec::new();
    for i in 0..2 {
        let mut c = mk.regs[i].clone();
        for _ in 0..[0, 1, 1, 1, 2, 3][r.below(6)] {
            if let Some(x) = c.as_ref().and_then(|x| damage(r, x, n, &all)) {
                c = Some(x);
            }
        }
        roots.push(it.opt(&c));
    }
    roots.push(roots[0]);
    roots.push(roots[1]);
    let pool: Vec<String> = pool.into_iter().map(|k| format!("{k:0<n$}")[..n].to_owned()).collect();
    let cfg = json!({"n": n, "kind": kind, "aug": aug as u8, "cells": it.table.clone(), "roots": roots});
    let mut ex = open(&cfg);
    let mut ev = Vec::new();
    for _ in 0..len {
        let v = value(r);
        let op = gen_op(r, &pool, n, kind, aug, v);
        let d = ju(&op["d"]);
        go(&mut ex, &mut ev, op);
        if r.flip() {
            go(&mut ex, &mut ev, json!({"op": "copy", "d": d + 2, "t": d}));
        }
    }
    Trace { cfg, cells: std::mem::take(&mut ex.it.table), ev }
}

fn gen_op(r: &mut Rng, pool: &[String], n: usize, kind: &str, aug: bool, v: Json) -> Json {
    let k = if r.chance(1, 3) { r.mixed_bits(n) } else { r.pick(pool).clone() };
    let d = r.chance(1, 4) as usize;
    let (signed, max, incl, rev, alt) = (r.flip(), r.flip(), r.flip(), r.flip(), r.flip());
    let m = *r.pick(&["set", "set", "set", "replace", "add"]);
    let lay = if aug {
        "aug"
    } else if kind.is_empty() {
        *r.pick(&["free", "raw"])
    } else {
        *r.pick(&["free", "raw", "typed", "typed"])
    };
    let pre = |r: &mut Rng| k[..if r.flip() { r.below(4.min(n)) } else { r.below(n) }].to_owned();
    let items = |r: &mut Rng, del: bool| {
        let mut ks: Vec<String> = pool.to_vec();
        ks.retain(|_| r.flip());
        ks.sort();
        ks.dedup();
        let f = |k: String| if del { if r.flip() { json!([k, []]) } else { json!([k, [v]]) } } else { json!([k, v]) };
        Json::Array(ks.into_iter().map(f).collect())
    };
    match r.below(if aug { 15 } else { 19 }) {
        0 | 1 => json!({"op": "get", "L": lay, "d": d, "k": k, "alt": alt}),
        2 if lay != "free" => json!({"op": "contains", "L": lay, "d": d, "k": k}),
        2 | 3 => json!({"op": if aug { "get" } else { "getown" }, "L": lay, "d": d, "k": k}),
        4 | 5 => {
            let op = if lay == "free" && alt { "insown" } else { "ins" };
            json!({"op": op, "L": lay, "d": d, "k": k, "v": v, "m": m, "alt": alt})
        }
        6 | 7 => json!({"op": "rem", "L": lay, "d": d, "k": k, "alt": alt}),
        8 | 9 => {
            let kd = *r.pick(if aug { &["iter", "keys", "values"][..] } else { &["iter", "owned", "keys", "values", "ownvalues"][..] });
            json!({"op": "iter", "L": lay, "d": d, "kind": kd, "rev": rev, "signed": signed, "alt": alt})
        }
        10 | 11 => {
            let l = if aug { "aug" } else { "raw" };
            json!({"op": "modify", "L": l, "d": d, "items": items(r, true)})
        }
        12 if alt => json!({"op": "remsub", "L": if aug { "aug" } else { "free" }, "d": d, "k": pre(r)}),
        12 => json!({"op": "split", "L": lay, "d": d, "k": pre(r), "t": 0, "t2": 1, "alt": alt}),
        13 => json!({"op": "mergesib", "L": if aug { "aug" } else { "free" }, "d": 0, "d2": 1, "t": 0}),
        14 if aug => json!({"op": "byextra", "L": "aug", "d": d, "max": max}),
        14 => json!({"op": "merge", "L": "free", "d": d, "d2": 1 - d}),
        15 => json!({"op": "find", "L": lay, "d": d, "k": k, "max": max, "signed": signed, "incl": incl}),
        16 => {
            let op = if alt && lay != "typed" { "boundown" } else { "bound" };
            json!({"op": op, "L": lay, "d": d, "max": max, "signed": signed, "alt": rev})
        }
        17 => json!({"op": "rembound", "L": lay, "d": d, "max": max, "signed": signed, "alt": alt}),
        _ if alt => json!({"op": "union", "L": if lay == "raw" { "free" } else { lay }, "d": d, "d2": 1 - d, "rev": rev, "signed": signed}),
        _ => json!({"op": "loadroot", "L": if lay == "raw" { "free" } else { lay }, "d": d, "v": v}),
    }
}
