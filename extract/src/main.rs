//! Mechanical extractor: turns functions of /repo into a single Verus file.
//!
//! usage: extract REPO CONTRACT_DIR OUT.rs [--probes] [--skip unit::fn]... UNIT...
mod cfg;
mod contract;
mod emit;
mod rewrite;

use std::collections::BTreeSet;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    let mut skip = BTreeSet::new();
    let mut probes = false;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--probes" => probes = true,
            "--skip" => {
                i += 1;
                skip.insert(args[i].clone());
            }
            a => pos.push(a.to_string()),
        }
        i += 1;
    }
    let repo = &pos[0];
    let cdir = &pos[1];
    let out = &pos[2];
    let units = &pos[3..];
    let (text, map) = emit::emit(repo, cdir, units, &skip, probes);
    std::fs::write(out, text).expect("write out");
    std::fs::write(format!("{out}.map.json"), map).expect("write map");
}
