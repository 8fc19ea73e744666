//! `mc modes C19 --mode NAME=DIR ...`: the explorations of the library
//! properties run in several builds of the same sources; every chunk has to
//! show the same everywhere. A property that is broken in the same way in all
//! builds is not this check's business.

use std::{
    collections::BTreeMap,
    fs,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Command, Stdio},
    time::Instant,
};

pub struct Mode {
    pub name: String,
    pub dir: PathBuf,
    /// unoptimised builds explore a smaller selection
    pub slow: bool,
}

/// Program, property, and which part of it is explored in fast and slow builds.
const PLAN: &[(&str, &str, [u64; 2], [u64; 2])] = &[
    // program, id, one part in how many: quick (fast, slow), thorough (fast, slow); 0: none
    ("mc", "C19", [1, 1], [1, 1]),
    ("mc", "C08", [1, 1], [1, 1]),
    ("mc", "C10", [1, 1], [1, 1]),
    ("mc", "C17", [1, 1], [1, 1]),
    ("mc", "C16", [1, 2], [1, 1]),
    ("mc", "C12", [1, 1], [1, 1]),
    ("mc", "C09", [1, 2], [1, 1]),
    ("mc", "C14", [1, 4], [1, 1]),
    ("mc", "C15", [1, 8], [1, 1]),
    ("mc", "C02", [1, 16], [1, 1]),
    ("mac", "C18", [1, 1], [1, 1]),
    ("mc", "C11", [2, 16], [1, 1]),
    ("mc", "C01", [2, 64], [1, 8]),
    ("mc", "C13", [8, 0], [1, 8]),
    ("mc", "C05", [8, 128], [1, 16]),
    ("mc", "C04", [8, 128], [1, 16]),
    ("mc", "C03", [64, 0], [1, 64]),
    ("mc", "C07", [256, 0], [1, 64]),
];

#[derive(Default, Clone)]
pub struct Shown {
    pub digests: BTreeMap<(String, usize), String>,
    pub order: Vec<String>,
    pub counts: [u64; 3],
    pub chunks: u64,
    /// family, chunk, what is wrong there
    pub bad: Option<(String, usize, String)>,
    pub died: Option<String>,
}

pub fn run_one(m: &Mode, prog: &str, id: &str, stride: u64, only: Option<(&str, usize)>, work: &Path) -> Option<Shown> {
    let exe = m.dir.join(prog);
    if !exe.exists() {
        return None;
    }
    let _ = fs::create_dir_all(work);
    let out = work.join(format!("{}-{id}.digests", m.name));
    let _ = fs::remove_file(&out);
    let mut c = Command::new(&exe);
    c.args(["run", id, "--digests"]).arg(&out).args(["--stride", &stride.to_string()]);
    if let Some((f, k)) = only {
        c.args(["--family", f, "--chunk", &k.to_string()]);
    }
    c.env("VERIF_TIER", "quick").stdout(Stdio::piped()).stderr(Stdio::piped());
    let r = c.output().unwrap_or_else(|e| {
        eprintln!("{}: {e}", exe.display());
        exit(2)
    });
    let mut s = Shown::default();
    let text = fs::read_to_string(&out).unwrap_or_default();
    for l in text.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        match w[0] {
            "F" => {
                s.order.push(w[1].into());
                for i in 0..3 {
                    s.counts[i] += w[3 + i].parse::<u64>().unwrap_or(0);
                }
            }
            "D" => {
                s.chunks += 1;
                s.digests.insert((w[1].into(), w[2].parse().unwrap_or(0)), w[3].into());
            }
            "B" => s.bad = Some((w[1].into(), w[2].parse().unwrap_or(0), w[3].into())),
            "E" => {
                eprintln!("ENGINE-ERROR build={} property={id} {}", m.name, w[1..].join(" "));
                exit(2)
            }
            _ => {}
        }
    }
    if let Some(sig) = r.status.signal() {
        s.died = Some(format!("killed by signal {sig}"));
    } else if r.status.code() == Some(17) {
        s.died = Some("a call did not return".into());
    } else if text.is_empty() {
        // a feature this build does not have
        if String::from_utf8_lossy(&r.stderr).contains("unknown property") {
            return None;
        }
        eprintln!("build {} does not explore {id}: {}", m.name, String::from_utf8_lossy(&r.stderr));
        exit(2)
    }
    Some(s)
}

pub struct Outcome {
    /// mode -> (states, transitions, traces, chunks)
    pub totals: Vec<(String, [u64; 3], u64)>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    /// id:family, chunk, text
    pub bad: Option<(String, usize, String)>,
    pub wall: f64,
}

pub fn compare(modes: &[Mode], thorough: bool, work: &Path, only: Option<(&str, &str, usize)>) -> Outcome {
    let t0 = Instant::now();
    let mut o = Outcome {
        totals: modes.iter().map(|m| (m.name.clone(), [0; 3], 0)).collect(),
        samples: vec![],
        notes: vec![],
        bad: None,
        wall: 0.0,
    };
    for &(prog, id, quick, deep) in PLAN {
        if only.is_some_and(|x| x.0 != id) {
            continue;
        }
        let strides = if thorough { deep } else { quick };
        let mut all: Vec<(usize, Shown)> = vec![];
        for (k, m) in modes.iter().enumerate() {
            if strides[m.slow as usize] == 0 {
                continue;
            }
            let part = only.map(|x| (x.1, x.2));
            if let Some(s) = run_one(m, prog, id, strides[m.slow as usize], part, work) {
                println!(
                    "C19 {id} in build {}: {} chunks, {} states, {} observations{} {:.1}s",
                    m.name, s.chunks, s.counts[0], s.counts[1],
                    s.bad.as_ref().map(|b| format!(", {}", b.2)).unwrap_or_default(),
                    t0.elapsed().as_secs_f64()
                );
                for i in 0..3 {
                    o.totals[k].1[i] += s.counts[i];
                }
                o.totals[k].2 += s.chunks;
                all.push((k, s));
            }
        }
        let Some((_, first)) = all.first().cloned() else { continue };
        let base = &modes[all[0].0].name;
        if let Some((_, d)) = first.digests.iter().next().filter(|_| o.samples.len() < 6) {
            o.samples.push(format!("{id}: chunk digest {d} in {} builds", all.len()));
        }
        // processes that end or hang
        for (k, s) in &all[1..] {
            if s.died != first.died {
                let t = |s: &Shown| s.died.clone().unwrap_or("runs through".into());
                o.bad = Some((id.into(), 0, format!("exploring {id}: build {} {}, build {base} {}", modes[*k].name, t(s), t(&first))));
                o.wall = t0.elapsed().as_secs_f64();
                return o;
            }
        }
        // what is wrong in one build must be wrong in the same way in all
        let suspects: Vec<(String, usize)> = all.iter().filter_map(|(_, s)| s.bad.as_ref().map(|b| (b.0.clone(), b.1))).collect();
        for (f, c) in &suspects {
            let seen: Vec<(usize, String)> = all
                .iter()
                .filter_map(|(k, _)| {
                    let s = run_one(&modes[*k], prog, id, 1, Some((f, *c)), work)?;
                    Some((*k, s.died.or(s.bad.map(|b| b.2)).unwrap_or_else(|| "as it should be".into())))
                })
                .collect();
            if let Some((k, t)) = seen.iter().find(|x| x.1 != seen[0].1) {
                o.bad = Some((format!("{id}:{f}"), *c, format!("build {}: {t}; build {base}: {}", modes[*k].name, seen[0].1)));
                o.wall = t0.elapsed().as_secs_f64();
                return o;
            }
            o.notes.push(format!("{id} {f} fails in the same way in every build: {}", seen[0].1));
        }
        let failing: Vec<&String> = suspects.iter().map(|s| &s.0).collect();
        for (k, s) in &all[1..] {
            for (at, d) in &s.digests {
                if failing.contains(&&at.0) {
                    continue;
                }
                if let Some(want) = first.digests.get(at).filter(|w| *w != d) {
                    o.bad = Some((
                        format!("{id}:{}", at.0),
                        at.1,
                        format!("{id} {} part {}: build {} shows something else than build {base} (digests {d}, {want})", at.0, at.1, modes[*k].name),
                    ));
                    o.wall = t0.elapsed().as_secs_f64();
                    return o;
                }
            }
        }
        if !suspects.is_empty() {
            // the rest of this property was not explored
            continue;
        }
    }
    o.wall = t0.elapsed().as_secs_f64();
    o
}
