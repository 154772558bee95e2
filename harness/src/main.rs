//! Executes histories against the crate under test and records what it did.
//!
//! `vh record <domain> <sel> <seed> <count> <len> <out-prefix> <shards>` makes random histories;
//! `vh replay <domain> <ops.ndjson> <out-prefix> <shards>` executes given ones (from TLC, or saved).
use std::io::{BufRead, BufWriter, Write};

use rayon::prelude::*;

mod abi;
mod addr;
mod bits;
mod boc;
mod cells;
mod dict;
mod config;
mod json;
mod dmg;
mod life;
mod merkle;
mod money;
mod num;
mod shards;
mod stat;
mod msg;
mod tlb;
mod vset;
mod usage;
mod util;
use util::*;

#[global_allocator]
static ALLOC: life::Counting = life::Counting;

fn record_one(domain: &str, sel: &str, seed: u64, len: usize) -> Trace {
    match domain {
        "abi" => abi::record(seed, sel, len),
        "addr" => addr::record(seed, sel, len),
        "bits" => bits::record(seed, sel, len),
        "boc" => boc::record(seed, sel, len),
        "cells" => cells::record(seed, sel, len),
        "dict" => dict::record(seed, sel, len),
        "dmg" => dmg::record(seed, sel, len),
        "config" => config::record(seed, sel, len),
        "json" => json::record(seed, sel, len),
        "life" => life::record(seed, sel, len),
        "merkle" => merkle::record(seed, sel, len),
        "money" => money::record(seed, sel, len),
        "num" => num::record(seed, sel, len),
        "shards" => shards::record(seed, sel, len),
        "stat" => stat::record(seed, sel, len),
        "msg" => msg::record(seed, sel, len),
        "tlb" => tlb::record(seed, sel, len),
        "vset" => vset::record(seed, sel, len),
        "usage" => usage::record(seed, sel, len),
        x => panic!("unknown domain {x}"),
    }
}
fn replay_one(domain: &str, cfg: &Json, ops: &[Json]) -> Trace {
    match domain {
        "abi" => abi::replay(cfg, ops),
        "addr" => addr::replay(cfg, ops),
        "bits" => bits::replay(cfg, ops),
        "boc" => boc::replay(cfg, ops),
        "cells" => cells::replay(cfg, ops),
        "dict" => dict::replay(cfg, ops),
        "dmg" => dmg::replay(cfg, ops),
        "config" => config::replay(cfg, ops),
        "json" => json::replay(cfg, ops),
        "life" => life::replay(cfg, ops),
        "merkle" => merkle::replay(cfg, ops),
        "money" => money::replay(cfg, ops),
        "num" => num::replay(cfg, ops),
        "shards" => shards::replay(cfg, ops),
        "stat" => stat::replay(cfg, ops),
        "msg" => msg::replay(cfg, ops),
        "tlb" => tlb::replay(cfg, ops),
        "vset" => vset::replay(cfg, ops),
        "usage" => usage::replay(cfg, ops),
        x => panic!("unknown domain {x}"),
    }
}

fn write(prefix: &str, shards: usize, base: usize, traces: Vec<Trace>) {
    let mut lines: Vec<String> = Vec::new();
    for (i, t) in traces.iter().enumerate() {
        lines.push(t.to_json(base + i).to_string());
    }
    // Balance the shards by size.
    let mut order: Vec<usize> = (0..lines.len()).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(lines[i].len()));
    let mut files: Vec<_> = (0..shards)
        .map(|s| (0usize, BufWriter::new(std::fs::File::create(format!("{prefix}{s}.ndjson")).unwrap())))
        .collect();
    for i in order {
        let f = files.iter_mut().min_by_key(|f| f.0).unwrap();
        f.0 += lines[i].len();
        writeln!(f.1, "{}", lines[i]).unwrap();
    }
}

fn main() {
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "record" => {
            let (domain, sel) = (&a[2], &a[3]);
            let seed: u64 = a[4].parse().unwrap();
            let (count, len): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let shards: usize = a[8].parse().unwrap();
            let only: Option<usize> = std::env::var("VH_ONLY").ok().and_then(|x| x.parse().ok());
            let traces: Vec<Trace> = (0..count)
                .into_par_iter()
                .filter(|i| only.is_none_or(|x| x == *i))
                .map(|i| record_one(domain, sel, seed.wrapping_mul(1_000_003).wrapping_add(i as u64), len))
                .collect();
            write(&a[7], shards, 1, traces);
        }
        "replay" => {
            let domain = &a[2];
            let shards: usize = a[5].parse().unwrap();
            let f = std::io::BufReader::new(std::fs::File::open(&a[3]).unwrap());
            let lines: Vec<String> = f.lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
            let traces: Vec<Trace> = lines
                .par_iter()
                .map(|l| {
                    let v: Json = serde_json::from_str(l).unwrap();
                    let empty = Vec::new();
                    let ops: Vec<Json> = v["ev"]
                        .as_array()
                        .unwrap_or(&empty)
                        .iter()
                        .map(|o| {
                            let mut o = o.clone();
                            o.as_object_mut().unwrap().remove("r");
                            o
                        })
                        .collect();
                    replay_one(domain, &v["cfg"], &ops)
                })
                .collect();
            write(&a[4], shards, 1, traces);
        }
        "child" => life::child(),
        x => panic!("unknown command {x}"),
    }
}
