//! Generates the static tables from the table data the crate exports, in the
//! form the download of /repo/build.rs has (phf maps of `Meta` values). Without
//! the feature `export`, they are made from tables.txt, what the crate exported
//! when this was written.

use std::{env, fmt::Write as _, fs, path::PathBuf};

type Entries = Vec<(i32, String)>;

#[cfg(feature = "export")]
fn data() -> (Entries, Entries) {
    let t = poker_export::evaluate::lookup_table::LookupTable::new();
    // the Debug text of an entry is the expression that makes it
    let mut flush: Entries = t.flush_lookup.iter().map(|(k, v)| (*k, format!("{v:?}"))).collect();
    let mut unsuited: Entries = t.unsuited_lookup.iter().map(|(k, v)| (*k, format!("{v:?}"))).collect();
    flush.sort();
    unsuited.sort();
    (flush, unsuited)
}

#[cfg(not(feature = "export"))]
fn data() -> (Entries, Entries) {
    let (mut flush, mut unsuited) = (vec![], vec![]);
    for l in include_str!("tables.txt").lines() {
        let mut w = l.splitn(3, ' ');
        let to = if w.next() == Some("F") { &mut flush } else { &mut unsuited };
        to.push((w.next().unwrap().parse().unwrap(), w.next().unwrap().to_string()));
    }
    (flush, unsuited)
}

fn map(name: &str, entries: &[(i32, String)], out: &mut String) {
    let n = entries.len();
    let buckets = n.max(1).div_ceil(5);
    for key in 1u64.. {
        let hashes: Vec<_> = entries.iter().map(|e| phf_shared::hash(&e.0, &key)).collect();
        let mut by_bucket = vec![vec![]; buckets];
        for (i, h) in hashes.iter().enumerate() {
            by_bucket[(h.g % buckets as u32) as usize].push(i);
        }
        let mut order: Vec<usize> = (0..buckets).collect();
        order.sort_by_key(|&b| (usize::MAX - by_bucket[b].len(), b));
        let mut slots: Vec<Option<usize>> = vec![None; n];
        let mut disps = vec![(0u32, 0u32); buckets];
        let mut ok = true;
        'bucket: for b in order {
            for d1 in 0..n as u32 {
                'disp: for d2 in 0..n as u32 {
                    let mut taken: Vec<usize> = vec![];
                    for &i in &by_bucket[b] {
                        let s = (phf_shared::displace(hashes[i].f1, hashes[i].f2, d1, d2) % n as u32) as usize;
                        if slots[s].is_some() || taken.contains(&s) {
                            continue 'disp;
                        }
                        taken.push(s);
                    }
                    for (&i, s) in by_bucket[b].iter().zip(taken) {
                        slots[s] = Some(i);
                    }
                    disps[b] = (d1, d2);
                    continue 'bucket;
                }
            }
            ok = false;
            break;
        }
        if !ok {
            continue;
        }
        let _ = writeln!(out, "pub static {name}: ::phf::Map<i32, Meta> = ::phf::Map {{ key: {key}, disps: &{disps:?}, entries: &[");
        for s in slots {
            let (k, v) = &entries[s.unwrap()];
            let _ = writeln!(out, "({k}, {v}),");
        }
        out.push_str("] };\n");
        return;
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let (flush, unsuited) = data();
    let mut text = String::from(
        "#[allow(unused_imports)] use crate::card::Rank::*;\n\
         #[allow(unused_imports)] use crate::evaluate::{hand_rank::*, meta::{Meta, Meta::*}};\n",
    );
    map("FLUSH_LOOKUP", &flush, &mut text);
    map("UNSUITED_LOOKUP", &unsuited, &mut text);
    if env::var("WRITE_TABLES").is_ok() {
        let lines: String = flush.iter().map(|e| format!("F {} {}\n", e.0, e.1)).chain(unsuited.iter().map(|e| format!("U {} {}\n", e.0, e.1))).collect();
        fs::write("tables.txt", lines).unwrap();
    }
    fs::write(PathBuf::from(env::var("OUT_DIR").unwrap()).join("codegen.rs"), text).unwrap();
}
