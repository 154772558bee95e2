//! Shared plumbing: random numbers, bit strings, structural dumps of cells, trace records.
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub use serde_json::{Value as Json, json};
use tycho_types::prelude::*;
use tycho_types::cell::{CellDescriptor, CellSliceParts, LoadMode, CellContext};
use tycho_types::error::Error;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn flip(&mut self) -> bool {
        self.next() & (1 << 40) != 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bits(&mut self, n: usize) -> String {
        (0..n).map(|_| if self.flip() { '1' } else { '0' }).collect()
    }
    /// Bits with long uniform runs (labels, leading/trailing zeros and the like).
    pub fn runs(&mut self, n: usize) -> String {
        let mut s = String::new();
        let mut c = self.flip();
        while s.len() < n {
            let k = 1 + self.below(1 + self.clone().below(40));
            for _ in 0..k {
                s.push(if c { '1' } else { '0' });
            }
            c = !c;
            self.next();
        }
        s.truncate(n);
        s
    }
    pub fn mixed_bits(&mut self, n: usize) -> String {
        match self.below(5) {
            0 => "0".repeat(n),
            1 => "1".repeat(n),
            2 => self.runs(n),
            _ => self.bits(n),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn hash(&mut self) -> [u8; 32] {
        let v = self.bytes(32);
        v.try_into().unwrap()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn bytes_to_bits(data: &[u8], n: usize) -> String {
    (0..n).map(|i| if data[i / 8] >> (7 - i % 8) & 1 == 1 { '1' } else { '0' }).collect()
}
/// Packs bits into bytes; the tail is zero padded.
pub fn bits_to_bytes(s: &str) -> Vec<u8> {
    let mut r = vec![0u8; s.len().div_ceil(8)];
    for (i, c) in s.bytes().enumerate() {
        if c == b'1' {
            r[i / 8] |= 0x80 >> (i % 8);
        }
    }
    r
}
pub fn u128_bits(v: u128, w: usize) -> String {
    (0..w).rev().map(|i| if i < 128 && (v >> i) & 1 == 1 { '1' } else { '0' }).collect()
}
pub fn bits_u128(s: &str) -> u128 {
    s.bytes().fold(0u128, |a, c| a << 1 | (c == b'1') as u128)
}
pub fn bits_u64(s: &str) -> u64 {
    bits_u128(s) as u64
}

/// Stores a bit string with the most primitive builder operation there is.
pub fn store_bits(b: &mut CellBuilder, s: &str) -> Result<(), Error> {
    for c in s.bytes() {
        b.store_bit(c == b'1')?;
    }
    Ok(())
}
pub fn cell_bits(c: &DynCell) -> String {
    bytes_to_bits(c.data(), c.bit_len() as usize)
}
pub fn slice_bits(s: &CellSlice<'_>) -> String {
    let mut s = *s;
    let mut r = String::with_capacity(s.size_bits() as usize);
    while let Ok(b) = s.load_bit() {
        r.push(if b { '1' } else { '0' });
    }
    r
}

/// Interns cells by structure: `[exotic, bits, [refs]]`, references by (1-based) index.
#[derive(Default)]
pub struct Interner {
    ids: HashMap<(bool, String, Vec<usize>), usize>,
    ptrs: HashMap<usize, usize>,
    pub cells: Vec<Cell>,
    pub table: Vec<Json>,
    keep: Vec<Cell>,
}
impl Interner {
    pub fn add(&mut self, c: &Cell) -> usize {
        let p = Cell::as_ref(c) as *const DynCell as *const () as usize;
        if let Some(&i) = self.ptrs.get(&p) {
            return i;
        }
        let mut refs = Vec::new();
        for i in 0..c.reference_count() {
            let r = c.reference_cloned(i).expect("reference within reference_count");
            refs.push(self.add(&r));
        }
        let key = (c.is_exotic(), cell_bits(c.as_ref()), refs);
        let id = match self.ids.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.table.len() + 1;
                self.table.push(json!([key.0 as u8, key.1, key.2]));
                self.cells.push(c.clone());
                self.ids.insert(key, i);
                i
            }
        };
        // Keep the cell alive so that its address stays unique.
        self.keep.push(c.clone());
        self.ptrs.insert(p, id);
        id
    }
    pub fn opt(&mut self, c: &Option<Cell>) -> usize {
        c.as_ref().map_or(0, |c| self.add(c))
    }
    pub fn get(&self, id: usize) -> Cell {
        self.cells[id - 1].clone()
    }
    /// Rebuilds the cells of a recorded trace.
    pub fn load(table: &Json) -> Self {
        let mut r = Interner::default();
        for row in table.as_array().into_iter().flatten() {
            let mut b = CellBuilder::new();
            store_bits(&mut b, row[1].as_str().unwrap()).unwrap();
            for i in row[2].as_array().unwrap() {
                b.store_reference(r.get(i.as_u64().unwrap() as usize)).unwrap();
            }
            b.set_exotic(row[0].as_u64() == Some(1));
            let c = b.build().unwrap();
            let refs = row[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let key = (c.is_exotic(), row[1].as_str().unwrap().to_owned(), refs);
            r.table.push(row.clone());
            r.cells.push(c.clone());
            let id = r.table.len();
            r.ids.insert(key, id);
            r.ptrs.insert(Cell::as_ref(&c) as *const DynCell as *const () as usize, id);
        }
        r
    }
    /// `[bits, [refs]]` of a slice.
    pub fn slice(&mut self, s: &CellSlice<'_>) -> Json {
        let mut refs = Vec::new();
        for i in 0..s.size_refs() {
            refs.push(self.add(&s.get_reference_cloned(i).unwrap()));
        }
        json!([slice_bits(s), refs])
    }
    pub fn parts(&mut self, p: &CellSliceParts) -> Json {
        let s = p.0.apply_allow_exotic(&p.1);
        self.slice(&s)
    }
    pub fn make(&self, v: &Json) -> Cell {
        let mut b = CellBuilder::new();
        store_bits(&mut b, v[0].as_str().unwrap()).unwrap();
        for i in v[1].as_array().unwrap() {
            b.store_reference(self.get(i.as_u64().unwrap() as usize)).unwrap();
        }
        b.build().unwrap()
    }
}

pub fn err(e: &Error) -> Json {
    json!(["err", format!("{e:?}").split(['(', ' ']).next().unwrap()])
}

/// Runs one operation against the code under test; a panic is an observation, not a crash.
pub fn guarded<F: FnOnce() -> Json>(f: F) -> Json {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!(["panic", msg])
        }
    }
}

pub fn js(v: &Json) -> &str {
    v.as_str().unwrap_or("")
}
pub fn ju(v: &Json) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
pub fn jb(v: &Json) -> bool {
    v.as_bool().unwrap_or(false)
}

/// One recorded history.
pub struct Trace {
    pub cfg: Json,
    pub cells: Vec<Json>,
    pub ev: Vec<Json>,
}
impl Trace {
    pub fn to_json(&self, id: usize) -> Json {
        json!({"id": id, "cfg": self.cfg, "cells": self.cells, "ev": self.ev})
    }
}

/// A random DAG of ordinary cells, used as payload.
pub fn rand_cell(rng: &mut Rng, depth: usize, max_bits: usize) -> Cell {
    let mut b = CellBuilder::new();
    let n = rng.below(max_bits + 1);
    store_bits(&mut b, &rng.mixed_bits(n)).unwrap();
    if depth > 0 {
        let k = [0, 0, 1, 1, 2, 3, 4][rng.below(7)];
        let mut last: Option<Cell> = None;
        for _ in 0..k {
            let c = match &last {
                Some(c) if rng.chance(1, 3) => c.clone(),
                _ => rand_cell(rng, depth - 1, max_bits),
            };
            last = Some(c.clone());
            b.store_reference(c).unwrap();
        }
    }
    b.build().unwrap()
}

/// A context that counts what it is asked for and can be told to fail at the n-th request.
#[derive(Default)]
pub struct CountingCx {
    pub loads: std::cell::Cell<usize>,
    pub gas: std::cell::Cell<usize>,
    pub builds: std::cell::Cell<usize>,
    pub fail_at: usize,
    pub calls: std::cell::Cell<usize>,
}
impl CountingCx {
    fn tick(&self) -> Result<(), Error> {
        self.calls.set(self.calls.get() + 1);
        if self.fail_at != 0 && self.calls.get() == self.fail_at { Err(Error::Cancelled) } else { Ok(()) }
    }
    fn note(&self, mode: LoadMode) {
        self.loads.set(self.loads.get() + 1);
        if mode.use_gas() {
            self.gas.set(self.gas.get() + 1);
        }
    }
}
impl CellContext for CountingCx {
    fn finalize_cell(&self, cell: tycho_types::cell::CellParts<'_>) -> Result<Cell, Error> {
        self.tick()?;
        self.builds.set(self.builds.get() + 1);
        Cell::empty_context().finalize_cell(cell)
    }
    fn load_cell(&self, cell: Cell, mode: LoadMode) -> Result<Cell, Error> {
        self.tick()?;
        self.note(mode);
        Ok(cell)
    }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, cell: &'a DynCell, mode: LoadMode) -> Result<&'a DynCell, Error> {
        self.tick()?;
        self.note(mode);
        Ok(cell)
    }
}

#[allow(unused)]
pub fn desc(c: &DynCell) -> CellDescriptor {
    c.descriptor()
}

/// A machine that executes operations against the code under test.
pub trait Machine {
    fn interner(&mut self) -> &mut Interner;
    fn exec(&mut self, op: &Json) -> Json;
    /// Runs an operation; its arguments may be completed (an operation may record what it was really given).
    fn run(&mut self, op: &Json) -> Json {
        let this = AssertUnwindSafe(self);
        guarded(move || {
            let this = this;
            this.0.exec(op)
        })
    }
}

/// Replays recorded operations; `cfg.cells` is the initial table of cells.
pub fn replay_with<M: Machine>(m: &mut M, cfg: &Json, ops: &[Json]) -> Trace {
    if !cfg["cells"].is_null() {
        *m.interner() = Interner::load(&cfg["cells"]);
    }
    let mut ev = Vec::new();
    for op in ops {
        let mut op = op.clone();
        op["r"] = m.run(&op);
        ev.push(op);
    }
    let it = m.interner();
    Trace { cfg: cfg.clone(), cells: std::mem::take(&mut it.table), ev }
}
pub fn hashes(it: &Interner) -> Json {
    json!(it.cells.iter().map(|c| hex(c.repr_hash().as_slice())).collect::<Vec<_>>())
}
