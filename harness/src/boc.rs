//! Bags of cells: encoding with all options, decoding of well-formed and of damaged bytes.
use tycho_types::boc::ser::{BocHeader, BocHeaderCache};
use tycho_types::boc::{Boc, de};
use tycho_types::prelude::*;

use crate::cells;
use crate::util::*;

#[derive(Default)]
pub struct M {
    it: Interner,
    maker: cells::M,
    /// The last encoding.
    last: String,
    cache: Option<BocHeaderCache<ahash::RandomState>>,
}

struct Slow(Vec<u8>, usize);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = self.1 % 7 + 1;
        let n = b.len().min(self.1 * 13);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A writer that fails after some bytes.
struct Short(usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn encode(h: &BocHeader<'_>) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    h.encode(&mut v);
    // after something else
    let mut w = vec![1, 2, 3];
    h.encode(&mut w);
    if w[3..] != v {
        return Err("append".into());
    }
    #[cfg(feature = "par")]
    {
        let mut w = Vec::new();
        h.encode_rayon(&mut w);
        if w != v {
            return Err("rayon".into());
        }
    }
    let mut w = Slow(Vec::new(), 0);
    h.encode_to_writer(&mut w).unwrap();
    if w.0 != v {
        return Err("writer".into());
    }
    if h.encode_to_writer(Short(v.len() - 1)).is_ok() || h.encode_to_writer(Short(v.len())).is_err() {
        return Err("short writer".into());
    }
    Ok(v)
}

fn decode(b: &[u8], lo: Option<usize>, hi: Option<usize>) -> Result<Vec<Cell>, de::Error> {
    let h = de::BocHeader::decode(b, &de::Options { min_roots: lo, max_roots: hi })?;
    let cs = h.finalize(Cell::empty_context())?;
    assert!(cs.get(h.cells().len() as u32).is_none(), "a cell out of range");
    Ok(h.roots().iter().map(|&i| cs.get(i).expect("a root in range")).collect())
}
fn berr(e: &de::Error) -> Json {
    json!(["err", format!("{e:?}")])
}
fn opt(v: &Json) -> Option<usize> {
    v.as_u64().map(|x| x as usize)
}

impl M {
    fn ids(&mut self, v: &[Cell]) -> Json {
        json!(v.iter().map(|c| self.it.add(c)).collect::<Vec<_>>())
    }
    fn enc(&mut self, op: &Json) -> Result<Json, String> {
        let roots: Vec<Cell> = op["roots"].as_array().unwrap().iter().map(|i| self.it.get(ju(i))).collect();
        self.enc_roots(roots, op)
    }
    fn enc_roots(&mut self, roots: Vec<Cell>, op: &Json) -> Result<Json, String> {
        let (crc, plain) = (jb(&op["crc"]), jb(&op["plain"]));
        let mut h = BocHeader::<ahash::RandomState>::with_root(roots[0].as_ref()).with_crc(crc).without_hashes(plain);
        for c in &roots[1..] {
            h.add_root(c.as_ref());
        }
        let v = encode(&h)?;
        let s = h.compute_stats();
        // The same with everything allocated beforehand.
        let mut g = BocHeader::<ahash::RandomState>::with_capacity(7).with_crc(crc).without_hashes(plain);
        g.add_root(roots[roots.len() - 1].as_ref());
        g.clear();
        for c in &roots {
            g.add_root(c.as_ref());
        }
        if encode(&g)? != v {
            return Err("cleared".into());
        }
        let mut g = BocHeader::with_root_and_cache(roots[0].as_ref(), self.cache.take().unwrap_or_default()).with_crc(crc).without_hashes(plain);
        for c in &roots[1..] {
            g.add_root(c.as_ref());
        }
        let w = encode(&g)?;
        self.cache = Some(g.into_cache());
        if w != v {
            return Err("cached".into());
        }
        if !crc && !plain {
            if roots.len() == 1 {
                let c = &roots[0];
                let forms = [Boc::encode(c), unhex(&Boc::encode_hex(c)), Boc::encode_with_cache(c, &mut Default::default())];
                if forms.iter().any(|x| *x != v) {
                    return Err("shorthand".into());
                }
                #[cfg(feature = "par")]
                if Boc::encode_rayon(c) != v || unhex(&Boc::encode_hex_rayon(c)) != v || Boc::encode_base64_rayon(c) != Boc::encode_base64(c) {
                    return Err("rayon shorthand".into());
                }
                if Boc::decode_base64(Boc::encode_base64(c)).map_err(|e| format!("{e:?}"))? != *c
                    || Boc::decode_hex(Boc::encode_hex(c)).map_err(|e| format!("{e:?}"))? != *c
                {
                    return Err("text".into());
                }
                #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)]
                struct S {
                    #[serde(with = "Boc")]
                    c: Cell,
                    #[serde(with = "Boc")]
                    o: Option<Cell>,
                    #[serde(with = "Boc")]
                    v: Vec<Cell>,
                }
                let s = S { c: c.clone(), o: Some(c.clone()), v: vec![c.clone(), c.clone()] };
                let t: S = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())?;
                if s != t {
                    return Err("serde".into());
                }
            } else if roots.len() == 2 && Boc::encode_pair((&roots[0], &roots[1])) != v {
                return Err("pair".into());
            }
        }
        self.last = hex(&v);
        Ok(json!(["ok", hex(&v), s.total_size, s.total_cells_size, s.offset_size, s.ref_size]))
    }
    fn dec(&mut self, op: &Json) -> Json {
        let b = unhex(js(&op["h"]));
        let (lo, hi) = (opt(&op["lo"]), opt(&op["hi"]));
        let r = decode(&b, lo, hi);
        let same = |x: &Result<Vec<Cell>, de::Error>, y: Result<Vec<Cell>, de::Error>| match (x, y) {
            (Ok(a), Ok(b)) => *a == b,
            (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
            _ => false,
        };
        if (lo, hi) == (Some(1), Some(1)) {
            let one = |c: Result<Cell, de::Error>| c.map(|c| vec![c]);
            let forms = [one(Boc::decode(&b)), one(Boc::decode_hex(hex(&b)))];
            for f in forms {
                if !same(&r, f) {
                    return json!(["differs", "shorthand"]);
                }
            }
        }
        if (lo, hi) == (Some(2), Some(2)) && !same(&r, Boc::decode_pair(&b).map(|(a, b)| vec![a, b])) {
            return json!(["differs", "pair"]);
        }
        match r {
            Ok(v) => json!(["ok", self.ids(&v)]),
            Err(e) => berr(&e),
        }
    }
    fn chain(n: usize, k: usize) -> Vec<u8> {
        // The bytes of a chain of n cells; every k-th refers to its child twice.
        let mut out = Vec::new();
        for i in 0..n {
            let refs = if i + 1 == n { 0 } else if k != 0 && i % k == 0 { 2 } else { 1 };
            out.extend_from_slice(&[refs as u8, 0]);
            for _ in 0..refs {
                out.extend_from_slice(&(i as u32 + 1).to_be_bytes());
            }
        }
        let mut v = vec![0xb5, 0xee, 0x9c, 0x72, 4, 4];
        for x in [n, 1, 0, out.len(), 0] {
            v.extend_from_slice(&(x as u32).to_be_bytes());
        }
        v.extend(out);
        v
    }
}

impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        match js(&op["op"]) {
            "enc" => self.enc(op).unwrap_or_else(|e| json!(["differs", e])),
            "dec" => self.dec(op),
            // decode and encode again: the cells keep the flag that asks for stored hashes
            "renc" => match decode(&unhex(js(&op["h"])), None, None) {
                Ok(v) => {
                    let ids = self.ids(&v);
                    let mut r = self.enc_roots(v, op).unwrap_or_else(|e| json!(["differs", e]));
                    r.as_array_mut().unwrap().push(ids);
                    r
                }
                Err(e) => berr(&e),
            },
            "deep" => {
                // a long chain, there and back; encoders and destructors must not recurse
                let (n, k) = (ju(&op["n"]), ju(&op["k"]));
                let b = M::chain(n, k);
                match Boc::decode(&b) {
                    Ok(c) => {
                        let v = Boc::encode(&c);
                        let d = Boc::decode(&v);
                        let mut crc = Vec::new();
                        let h = BocHeader::<ahash::RandomState>::with_root(c.as_ref()).with_crc(true);
                        h.encode_to_writer(&mut crc).unwrap();
                        let e = Boc::decode(&crc);
                        json!(["ok", c.depth(0), d.is_ok_and(|d| d == c), e.is_ok_and(|d| d == c), encode(&h).is_ok_and(|x| x == crc)])
                    }
                    Err(e) => berr(&e),
                }
            }
            "exact" => {
                // n cells that take exactly `size` bytes when references take `w` each
                let (n, size, w) = (ju(&op["n"]), ju(&op["size"]), ju(&op["w"]));
                let mut left = size - n * 2 - (n - 1) * w;
                let mut made: Vec<Option<Cell>> = vec![None; n];
                // a binary tree, built from its last node
                for i in 0..n {
                    let mut b = CellBuilder::new();
                    let room = left.min(127);
                    let k = if room < 4 { room } else { room.min(4.max(left / (n - i))) };
                    let mut v = (i as u32).to_be_bytes().to_vec();
                    v.resize(127, 7);
                    if k < 4 {
                        v = v[4 - k..].to_vec();
                    }
                    left -= k;
                    b.store_raw(&v, k as u16 * 8).unwrap();
                    let j = n - 1 - i;
                    for kid in [2 * j + 1, 2 * j + 2] {
                        if kid < n {
                            b.store_reference(made[kid].take().unwrap()).unwrap();
                        }
                    }
                    made[j] = Some(b.build().unwrap());
                }
                assert_eq!(left, 0, "harness: sizes");
                let c = made[0].take().unwrap();
                let h = BocHeader::<ahash::RandomState>::with_root(c.as_ref()).with_crc(jb(&op["crc"]));
                match encode(&h) {
                    Ok(v) => {
                        let s = h.compute_stats();
                        let head = hex(&v[..v.len().min(24)]);
                        let ok = decode(&v, None, None).is_ok_and(|d| d == [c.clone()]);
                        json!(["ok", head, v.len(), [s.total_size, s.total_cells_size, s.offset_size, s.ref_size], ok])
                    }
                    Err(e) => json!(["differs", e]),
                }
            }
            "wide" => {
                // many cells, so that the encoders work in chunks
                let n = ju(&op["n"]);
                let mut r = Rng::new(n as u64);
                let mut cs: Vec<Cell> = Vec::new();
                let mut top: Vec<Cell> = Vec::new();
                for i in 0..n {
                    let mut b = CellBuilder::new();
                    b.store_u32(i as u32).unwrap();
                    let x = r.below(60);
                    store_bits(&mut b, &r.bits(x)).unwrap();
                    while b.size_refs() < 4 && top.len() >= 16 && b.size_refs() < 1 + (i % 4) as u8 {
                        b.store_reference(top.remove(r.below(8))).unwrap();
                    }
                    if !cs.is_empty() && b.has_capacity(0, 1) && r.flip() {
                        b.store_reference(cs[r.below(cs.len())].clone()).unwrap();
                    }
                    let c = b.build().unwrap();
                    cs.push(c.clone());
                    top.push(c);
                }
                let mut h = BocHeader::<ahash::RandomState>::with_root(top[0].as_ref()).with_crc(jb(&op["crc"]));
                for c in &top[1..] {
                    h.add_root(c.as_ref());
                }
                match encode(&h) {
                    Ok(v) => {
                        let s = h.compute_stats();
                        let d = decode(&v, None, Some(top.len()));
                        json!(["ok", v.len() as u64 == s.total_size, d.is_ok_and(|d| d == top)])
                    }
                    Err(e) => json!(["differs", e]),
                }
            }
            _ => {
                // everything else makes a cell
                let r = self.maker.run(op);
                if r[0] == "ok" {
                    let c = self.maker.cells.last().unwrap().clone();
                    json!(["ok", self.it.add(&c)])
                } else {
                    json!([r[0], r[1]])
                }
            }
        }
    }
}

pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}

/// A bag as a list of raw cells, to be written in any of the ways the format has.
#[derive(Clone)]
struct Raw {
    d1: u8,
    d2: u8,
    stored: Vec<u8>,
    data: Vec<u8>,
    refs: Vec<u64>,
}
struct Bag {
    tag: [u8; 4],
    flags: u8,
    refsz: usize,
    off: usize,
    count: u64,
    roots: u64,
    absent: u64,
    total: i64,
    list: Vec<u64>,
    cells: Vec<Raw>,
    index: bool,
    crc: bool,
    badcrc: bool,
    tail: Vec<u8>,
}
fn put(v: &mut Vec<u8>, x: u64, n: usize) {
    for i in (0..n).rev() {
        v.push(if i < 8 { (x >> (8 * i)) as u8 } else { 0 });
    }
}
impl Bag {
    fn bytes(&self) -> Vec<u8> {
        let mut body = Vec::new();
        let mut offs = Vec::new();
        for c in &self.cells {
            body.extend_from_slice(&[c.d1, c.d2]);
            body.extend_from_slice(&c.stored);
            body.extend_from_slice(&c.data);
            for &r in &c.refs {
                put(&mut body, r, self.refsz);
            }
            offs.push(body.len() as u64);
        }
        let mut v = self.tag.to_vec();
        let generic = self.tag[0] == 0xb5;
        v.push(if generic { self.flags | self.refsz as u8 } else { self.refsz as u8 });
        v.push(self.off as u8);
        put(&mut v, self.count, self.refsz);
        put(&mut v, self.roots, self.refsz);
        put(&mut v, self.absent, self.refsz);
        put(&mut v, (body.len() as i64 + self.total) as u64, self.off);
        if generic {
            for &r in &self.list {
                put(&mut v, r, self.refsz);
            }
        }
        if self.index {
            for o in offs {
                put(&mut v, o, self.off);
            }
        }
        v.extend(body);
        if self.crc {
            let c = crc32c::crc32c(&v) ^ self.badcrc as u32;
            v.extend_from_slice(&c.to_le_bytes());
        }
        v.extend_from_slice(&self.tail);
        v
    }
}

/// Writes cells in some valid order with some valid options.
fn bag(r: &mut Rng, roots: &[Cell]) -> Bag {
    // a random topological order: depth first with shuffled children, or by depth
    let mut all: Vec<Cell> = Vec::new();
    fn visit(c: &Cell, all: &mut Vec<Cell>, r: &mut Rng) {
        if all.iter().any(|x| x == c) {
            return;
        }
        let mut kids: Vec<Cell> = (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect();
        if r.flip() {
            kids.reverse();
        }
        for k in kids {
            visit(&k, all, r);
        }
        all.push(c.clone());
    }
    for c in roots {
        visit(c, &mut all, r);
    }
    all.reverse();
    if r.chance(1, 6) {
        // a cell written twice is still a bag
        let c = all[r.below(all.len())].clone();
        all.push(c.clone());
        let i = all.iter().position(|x| *x == c).unwrap();
        let c = all.remove(i);
        let _ = c;
        // keep parents before children: put the copy where the original was
        let c = all.pop().unwrap();
        all.insert(i, c.clone());
        all.insert(i, c);
    }
    let n = all.len();
    let at = |c: &Cell, after: usize| (after..n).find(|&i| all[i] == *c).unwrap() as u64;
    let with_hashes = r.chance(1, 4);
    let mut cells = Vec::new();
    for (i, c) in all.iter().enumerate() {
        let d = c.descriptor();
        let pruned = c.cell_type().is_pruned_branch();
        let sh = with_hashes && !pruned && r.flip();
        let mut stored = Vec::new();
        if sh {
            for l in d.level_mask() {
                stored.extend_from_slice(c.hash(l).as_slice());
            }
            for l in d.level_mask() {
                stored.extend_from_slice(&c.depth(l).to_be_bytes());
            }
        }
        let refs = c.references().map(|x| (i + 1..n).find(|&j| all[j].as_ref() == x).unwrap() as u64).collect();
        cells.push(Raw { d1: d.d1 & !16 | (sh as u8) << 4, d2: d.d2, stored, data: c.data().to_vec(), refs });
    }
    let list: Vec<u64> = roots.iter().map(|c| at(c, 0)).collect();
    let tag: [u8; 4] = match r.below(8) {
        0 => [0x68, 0xff, 0x65, 0xf3],
        1 => [0xac, 0xc3, 0xa7, 0x28],
        _ => [0xb5, 0xee, 0x9c, 0x72],
    };
    let (index, crc, cache) = match tag[0] {
        0x68 => (true, false, false),
        0xac => (true, true, false),
        _ => {
            let i = r.chance(1, 4);
            (i, r.flip(), i && r.chance(1, 3))
        }
    };
    let size: usize = cells.iter().map(|c| 2 + c.stored.len() + c.data.len() + c.refs.len() * 4).sum();
    let minref = if n < 256 { 1 } else { 2 };
    let minoff = if size < 256 { 1 } else if size < 65536 { 2 } else { 3 };
    Bag {
        tag,
        flags: (index as u8) << 7 | (crc as u8) << 6 | (cache as u8) << 5,
        refsz: if r.chance(2, 3) { minref } else { r.range(minref, 4) },
        off: if r.chance(2, 3) { minoff } else { r.range(minoff, 8) },
        count: n as u64,
        roots: list.len() as u64,
        absent: 0,
        total: 0,
        list,
        cells,
        index,
        crc,
        badcrc: false,
        tail: vec![],
    }
}

fn damage(r: &mut Rng, b: &mut Bag) {
    let n = b.cells.len();
    match r.below(22) {
        0 => b.count = b.count.wrapping_add(*r.pick(&[1, 2, 255, u64::MAX])),
        1 => b.count = r.next(),
        2 => b.roots = *r.pick(&[0, 1, 2, 3, 32, 33, 255, b.count, b.count + 1, u64::MAX]),
        3 => b.absent = *r.pick(&[1, 2, u64::MAX]),
        4 => b.total += *r.pick(&[-2, -1, 1, 2, 3, 100, 256, i32::MAX as i64]),
        5 => b.total = r.next() as i64,
        6 => {
            let k = r.below(b.list.len());
            b.list[k] = *r.pick(&[0, n as u64 - 1, n as u64, 255, u64::MAX]);
        }
        7 => {
            b.list.push(r.below(n + 1) as u64);
            b.roots = b.list.len() as u64;
        }
        8 => b.flags ^= 1 << r.range(3, 7),
        9 => b.refsz = *r.pick(&[0, 5, 6, 7, 1, 2]),
        10 => b.off = *r.pick(&[0, 9, 255, 1, 2]),
        11 => b.index = !b.index,
        12 => b.crc = !b.crc,
        13 => {
            b.crc = true;
            b.badcrc = true;
        }
        14 => {
            let k = r.below(4);
            b.tag[k] ^= 1 << r.below(8);
        }
        15 => {
            let k = r.range(1, 5);
            b.tail = r.bytes(k);
        }
        16 => {
            // a reference to itself, backwards, out of range or just elsewhere
            let k = r.below(n);
            if let Some(x) = b.cells[k].refs.last_mut() {
                *x = *r.pick(&[k as u64, 0, n as u64, n as u64 - 1, k as u64 + 1, u64::MAX]);
            }
        }
        17 => {
            let k = r.below(n);
            b.cells[k].d1 ^= 1 << r.below(8);
        }
        18 => {
            let k = r.below(n);
            b.cells[k].d2 = match r.below(3) {
                0 => b.cells[k].d2 ^ 1,
                1 => b.cells[k].d2.wrapping_add(2),
                _ => r.next() as u8,
            };
        }
        19 => {
            // the end of the data, with or without a completion tag
            let k = r.below(n);
            if let Some(x) = b.cells[k].data.last_mut() {
                *x = *r.pick(&[0, 0x80, 0x40, 0xc0, 1, 0xff]);
            }
        }
        20 => {
            // more or fewer references, all consistent
            let k = r.below(n);
            let c = &mut b.cells[k];
            if r.flip() {
                c.refs.push(n as u64 - 1);
            } else {
                c.refs.pop();
            }
            c.d1 = c.d1 & !7 | c.refs.len() as u8;
        }
        _ => {
            // an unreachable cell at the end, data with or without tag
            let k = r.below(3);
            let data = r.bytes(k);
            b.cells.push(Raw { d1: *r.pick(&[0, 0, 0, 8, 16, 32, 7, 0x17]), d2: (2 * k - r.below(2).min(k)) as u8, stored: vec![], data, refs: vec![] });
            b.count += 1;
        }
    }
}

pub fn record(seed: u64, sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    let mut go = |m: &mut M, mut op: Json| {
        op["r"] = m.run(&op);
        ev.push(op);
    };
    let big = seed % 211;
    if big < 3 {
        // a few histories do large things
        let b = big as usize;
        let (n1, n2) = ([990, 1010, 2500][b], [4990, 10020, 15100][b]);
        let (d1, k1, d2) = ([65535, 65536, 65537][b], [0, 3, 1][b], [127, 1000, 70000][b]);
        let ops = if sel == "enc" {
            [json!({"op": "wide", "n": n1, "crc": true}), json!({"op": "wide", "n": n2, "crc": big == 1})]
        } else {
            [json!({"op": "deep", "n": d1, "k": k1}), json!({"op": "deep", "n": d2, "k": 1})]
        };
        for op in ops {
            go(&mut m, op);
        }
    }
    let idx = (seed % 1_000_003) as usize;
    if sel == "enc" && idx < 10 {
        // counts and sizes around the ends of the widths
        let (n, w) = [(1, 1), (2, 1), (254, 1), (255, 1), (256, 2), (257, 2), (300, 2), (65535, 2), (65536, 3), (65537, 3)][idx];
        let least = n * 2 + (n - 1) * w + if n < 4 { 0 } else { n * 4 };
        let most = n * 2 + (n - 1) * w + n * 127;
        let mut sizes = vec![least + r.below(most - least), least + r.below(most - least), 255, 256, 257, 65535, 65536, 65537];
        if n > 1000 {
            sizes = vec![least + r.below(n), (1 << 24) - 1, 1 << 24];
        }
        for size in sizes {
            if least <= size && size <= most {
                go(&mut m, json!({"op": "exact", "n": n, "size": size, "w": w, "crc": r.flip()}));
            }
        }
    }
    let deep = r.chance(1, 12);
    let ncells = if deep { r.range(120, 180) } else { r.range(1, 14) };
    let mut bags: Vec<Vec<u8>> = Vec::new();
    for _ in 0..ncells {
        let n = m.maker.cells.len();
        let op = if deep && n > 0 {
            let k = r.range(1, 3);
            let len = r.below(12);
            let refs: Vec<usize> = (0..k).map(|i| if i == 0 { n } else { 1 + r.below(n) }).collect();
            json!({"op": "cell", "x": 0, "v": r.bits(len), "refs": refs})
        } else {
            let mut op = cells::gen_cell(&mut r, &m.maker.cells);
            if op["x"] == 0 && r.flip() {
                // keep most of them short
                let v = js(&op["v"]).to_owned();
                op["v"] = json!(v[..v.len().min(r.below(40))]);
            }
            op
        };
        go(&mut m, op);
    }
    let rounds = if deep { 2 } else { len };
    for _ in 0..rounds {
        let n = m.it.cells.len();
        if n == 0 {
            break;
        }
        // several roots, some of them equal or below one another, but not more than there are cells
        let mut roots: Vec<usize> = Vec::new();
        let k = if deep { 1 } else { *r.pick(&[1, 1, 1, 2, 2, 3, 5]) };
        for _ in 0..k {
            roots.push(if r.flip() { n - r.below(n.min(3)) } else { 1 + r.below(n) });
        }
        loop {
            let mut seen = Interner::default();
            for &i in &roots {
                seen.add(&m.it.get(i));
            }
            if roots.len() <= seen.cells.len() {
                break;
            }
            roots.pop();
        }
        if sel == "enc" {
            go(&mut m, json!({"op": "enc", "roots": roots, "crc": r.flip(), "plain": r.flip()}));
            let h = m.last.clone();
            go(&mut m, json!({"op": "dec", "h": h, "lo": -1, "hi": -1}));
        }
        let cs: Vec<Cell> = roots.iter().map(|&i| m.it.get(i)).collect();
        let single = r.chance(1, 3);
        let mut b = bag(&mut r, if single { &cs[..1] } else { &cs });
        let k = if sel == "enc" { 0 } else { *r.pick(&[0, 0, 1, 1, 1, 2]) };
        for _ in 0..k {
            damage(&mut r, &mut b);
        }
        let mut v = b.bytes();
        if sel == "enc" || r.chance(1, 10) {
            go(&mut m, json!({"op": "renc", "h": hex(&v), "crc": r.flip(), "plain": r.chance(1, 3)}));
        }
        if sel != "enc" {
            match r.below(12) {
                0 => {
                    let k = r.below(v.len() + 1);
                    v.truncate(k);
                }
                1 | 2 => {
                    let k = r.below(v.len());
                    v[k] = r.next() as u8;
                }
                3 => {
                    let k = r.below(v.len());
                    v[k] ^= 1 << r.below(8);
                }
                4 if !bags.is_empty() => {
                    // the head of one and the tail of another
                    let o = &bags[r.below(bags.len())];
                    let k = r.below(v.len().min(o.len()));
                    let mut w = v[..k].to_vec();
                    w.extend_from_slice(&o[k..]);
                    v = w;
                }
                _ => {}
            }
            bags.push(v.clone());
        }
        let (lo, hi) = *r.pick(&[(1, 1), (-1, -1), (2, 2), (1, 3), (2, -1), (-1, 1), (0, 40)]);
        go(&mut m, json!({"op": "dec", "h": hex(&v), "lo": lo, "hi": hi}));
    }
    Trace { cfg: json!({}), cells: std::mem::take(&mut m.it.table), ev }
}
