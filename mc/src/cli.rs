//! `mc check ID`: supervise `mc run ID` and give the verdict.
//! `mc run ID [--family F --chunk N]`: explore.
//! `mc replay FILE`: run again the part of the exploration a violation came from.

use std::{
    fmt::Write as _,
    fs,
    io::Write as _,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Command, Stdio},
    time::Instant,
};

use crate::engine::{explore, selected, Family, Options, Report, Verdict};
use crate::env::{Env, Tier};

pub type Families = for<'a> fn(&str, &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)>;

static FAMILIES: std::sync::OnceLock<Families> = std::sync::OnceLock::new();

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> { FAMILIES.get().unwrap()(id, env) }

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    verb: String,
    id: String,
    family: Option<String>,
    chunk: Option<usize>,
    careful: Option<PathBuf>,
    progress: Option<PathBuf>,
    stride: u64,
    digests: Option<PathBuf>,
    pub rest: Vec<(String, String)>,
    out: PathBuf,
}

fn args() -> Args {
    let mut a = Args {
        verb: String::new(),
        id: String::new(),
        family: None,
        chunk: None,
        careful: None,
        progress: None,
        stride: 1,
        digests: None,
        rest: vec![],
        out: PathBuf::from("/verif"),
    };
    let mut it = std::env::args().skip(1);
    a.verb = it.next().unwrap_or_default();
    a.id = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--family" => a.family = Some(v),
            "--chunk" => a.chunk = v.parse().ok(),
            "--careful" => a.careful = Some(v.into()),
            "--progress" => a.progress = Some(v.into()),
            "--out" => a.out = v.into(),
            "--stride" => a.stride = v.parse().unwrap_or(1),
            "--digests" => a.digests = Some(v.into()),
            _ if a.verb == "modes" => a.rest.push((k, v)),
            _ => {
                eprintln!("unknown option {k}");
                exit(2)
            }
        }
    }
    a
}

fn tier() -> (Tier, u64) {
    let t = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    (t, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1))
}

/// Command line of an exploring program that decides the given properties.
pub fn cli(f: Families) {
    let _ = FAMILIES.set(f);
    let a = args();
    match a.verb.as_str() {
        "run" => run(&a),
        "check" => check(&a),
        "replay" => replay(&a),
        "modes" => modes(&a),
        _ => {
            eprintln!("usage: mc check|run ID [--family F --chunk N] | mc replay FILE");
            exit(2)
        }
    }
}

fn write_replay(a: &Args, family: &str, chunk: usize, detail: &str) -> PathBuf {
    let dir = a.out.join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.txt", a.id, family.replace(':', "-"), chunk));
    let (t, seed) = tier();
    let text = format!(
        "property={}\nfamily={family}\nchunk={chunk}\ntier={}\nseed={seed}\ndetail={detail}\n# run again with: bash /verif/check.sh --replay {}\n",
        a.id,
        if t == Tier::Quick { "quick" } else { "thorough" },
        p.display()
    );
    if let Err(e) = fs::write(&p, text) {
        eprintln!("cannot write {}: {e}", p.display());
        exit(2);
    }
    p
}

fn write_evidence(a: &Args, reports: &[Report], assumptions: &[&str], wall: f64, violations: usize) {
    let (t, seed) = tier();
    let sum = |f: fn(&Report) -> u64| reports.iter().map(f).sum::<u64>();
    let mut fams = vec![];
    let mut samples = vec![];
    for r in reports {
        fams.push(format!(
            "{{\"family\":{},\"bound\":{},\"chunks\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"distinct_outcomes\":{},\"wall_s\":{:.2},\"completed\":{}}}",
            json(r.family), json(&r.bound), r.chunks, r.states, r.transitions, r.traces, r.outcomes, r.wall, r.bad.is_none()
        ));
        samples.extend(r.samples.iter().map(|s| json(&format!("{}: {}", r.family, s))));
    }
    if samples.is_empty() {
        samples.push(json("(none)"));
    }
    let text = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"samples\":[{}],\"families\":[{}],\"counting\":\"states: distinct elements of the enumerated space; transitions: single observations of the implementation compared with the model; traces: complete executions of the implementation\"}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json(&a.id),
        if t == Tier::Quick { "quick" } else { "thorough" },
        seed,
        sum(|r| r.states),
        sum(|r| r.transitions),
        sum(|r| r.traces),
        violations == 0,
        samples.join(","),
        fams.join(","),
        assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        wall,
        violations
    );
    let dir = a.out.join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", a.id)), text) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
}

fn run(a: &Args) -> ! {
    let (tier, seed) = tier();
    let env = Env::new(tier, seed);
    let t0 = Instant::now();
    let Some((fams, assumptions)) = families(&a.id, &env) else {
        eprintln!("unknown property {}", a.id);
        exit(2)
    };
    let opt = Options {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        only_chunk: a.chunk,
        careful: a.careful.as_ref().map(|p| fs::File::create(p).unwrap()),
        progress: a.progress.as_ref().map(|p| fs::File::create(p).unwrap()),
        hang_s: 120,
        stride: a.stride,
    };
    let mut reports = vec![];
    let mut bad = None;
    for (k, f) in fams.iter().enumerate() {
        if a.family.as_deref().is_some_and(|n| n != f.name) || a.digests.is_some() && f.name == "reference-model-self-check" {
            continue;
        }
        let mut r = explore(f, &opt, k);
        println!(
            "{} {}: states={} transitions={} executions={} outcomes={} {:.2}s",
            a.id, r.family, r.states, r.transitions, r.traces, r.outcomes, r.wall
        );
        bad = r.bad.take().map(|(c, v)| (f.name, c, v));
        let stop = bad.is_some();
        reports.push(r);
        if stop {
            break;
        }
    }
    if a.family.is_some() && reports.is_empty() {
        eprintln!("no such family");
        exit(2);
    }
    if let Some(p) = &a.digests {
        write_digests(p, &reports, bad.as_ref().map(|(f, c, v)| (*f, *c, v)), a.stride);
        exit(0)
    }
    let whole = a.family.is_none();
    match bad {
        None => {
            if whole {
                write_evidence(a, &reports, &assumptions, t0.elapsed().as_secs_f64(), 0);
            }
            println!("OK property={} held on everything explored", a.id);
            exit(0)
        }
        Some((f, c, Verdict::Violation(d))) => {
            if whole {
                write_evidence(a, &reports, &assumptions, t0.elapsed().as_secs_f64(), 1);
            }
            violation(a, f, c, &d)
        }
        Some((f, c, Verdict::Engine(d))) => {
            eprintln!("ENGINE-ERROR property={} family={f} chunk={c}: {d}", a.id);
            exit(2)
        }
    }
}

/// What one build of the library showed, for comparison with other builds.
fn write_digests(p: &Path, reports: &[Report], bad: Option<(&str, usize, &Verdict)>, stride: u64) {
    let mut t = String::new();
    for r in reports {
        let _ = writeln!(t, "F\t{}\t{}\t{}\t{}\t{}", r.family, r.chunks, r.states, r.transitions, r.traces);
        for (c, d) in r.digests.iter().enumerate() {
            if *d != 0 && selected(c, r.digests.len(), stride) {
                let _ = writeln!(t, "D\t{}\t{c}\t{d:016x}", r.family);
            }
        }
    }
    if let Some((f, c, v)) = bad {
        let (k, d) = match v {
            Verdict::Violation(d) => ("B", d),
            Verdict::Engine(d) => ("E", d),
        };
        let _ = writeln!(t, "{k}\t{f}\t{c}\t{}", d.replace(['\n', '\t'], " "));
    }
    if let Err(e) = fs::write(p, t) {
        eprintln!("{}: {e}", p.display());
        exit(2);
    }
}

fn violation(a: &Args, family: &str, chunk: usize, detail: &str) -> ! {
    let p = write_replay(a, family, chunk, detail);
    println!("{detail}");
    println!("VIOLATION property={} replay={}", a.id, p.display());
    let _ = std::io::stdout().flush();
    exit(1)
}

/// Crashes (stack overflow, abort, out of memory) kill the exploring process;
/// the supervisor finds out which input did it.
fn check(a: &Args) -> ! {
    let work = a.out.join("work");
    let _ = fs::create_dir_all(&work);
    let progress = work.join(format!("{}.progress", a.id));
    let me = std::env::current_exe().unwrap();
    let spawn = |extra: &[&str]| {
        let mut c = Command::new(&me);
        c.arg("run").arg(&a.id).arg("--out").arg(&a.out).args(extra);
        c.stdout(Stdio::piped());
        let out = c.spawn().and_then(|c| c.wait_with_output()).unwrap();
        (out.status, String::from_utf8_lossy(&out.stdout).into_owned())
    };
    let (status, out) = spawn(&["--progress", progress.to_str().unwrap()]);
    print!("{out}");
    match status.code() {
        Some(17) => {
            let line = out.lines().rev().find(|l| l.starts_with("HANG ")).unwrap_or("").to_string();
            let get = |k: &str| line.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            let (f, c) = (get("family="), get("chunk=").parse().unwrap_or(0));
            write_evidence(a, &[], &[], 0.0, 1);
            violation(a, &f, c, &line)
        }
        Some(c) => exit(c),
        None => {
            let sig = status.signal().unwrap_or(0);
            eprintln!("exploring process died with signal {sig}; looking for the input");
            let text = fs::read_to_string(&progress).unwrap_or_default();
            let (tier, seed) = tier();
            let env = Env::new(tier, seed);
            let fams = families(&a.id, &env).unwrap().0;
            let mut todo: Vec<(usize, usize)> = text
                .lines()
                .filter_map(|l| {
                    let mut w = l.split_whitespace();
                    Some((w.next()?.parse().ok()?, w.next()?.parse().ok()?))
                })
                .collect();
            todo.sort();
            todo.dedup();
            let last = todo.last().map(|t| t.0);
            for (f, c) in todo.into_iter().filter(|t| Some(t.0) == last) {
                let careful = work.join(format!("{}.careful", a.id));
                let (st, _) = spawn(&[
                    "--family", fams[f].name, "--chunk", &c.to_string(), "--careful", careful.to_str().unwrap(),
                ]);
                if st.signal().is_some() {
                    let note = fs::read_to_string(&careful).ok().and_then(|t| t.trim().parse().ok()).unwrap_or(0);
                    write_evidence(a, &[], &[], 0.0, 1);
                    violation(
                        a, fams[f].name, c,
                        &format!("the process is killed (signal {}) by {}", st.signal().unwrap(), (fams[f].describe)(note)),
                    );
                }
            }
            eprintln!("ENGINE-ERROR the crash did not happen again");
            exit(2)
        }
    }
}

/// `--mode NAME=DIR` ..., `--slow NAME=DIR`; `--replay FILE` for one part only.
fn modes(a: &Args) -> ! {
    use crate::modes::{compare, Mode};
    let (tier, _) = tier();
    let mut ms = vec![];
    let mut only = None;
    for (k, v) in &a.rest {
        match (k.as_str(), v.split_once('=')) {
            ("--mode" | "--slow", Some((n, d))) => ms.push(Mode { name: n.into(), dir: d.into(), slow: k == "--slow" }),
            ("--replay", _) => {
                let text = fs::read_to_string(v).unwrap_or_default();
                let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_string();
                let f = get("family");
                let (i, f) = f.split_once(':').unwrap_or((&f, ""));
                only = Some((i.to_string(), f.to_string(), get("chunk").parse().unwrap_or(0)));
            }
            _ => {
                eprintln!("unknown option {k} {v}");
                exit(2)
            }
        }
    }
    let part = only.as_ref().filter(|o| !o.1.is_empty()).map(|o| (o.0.as_str(), o.1.as_str(), o.2));
    let o = compare(&ms, tier == Tier::Thorough, &a.out.join("work/C19"), part);
    for n in &o.notes {
        println!("note: {n}");
    }
    if only.is_none() {
        let reports: Vec<Report> = o
            .totals
            .iter()
            .map(|(n, c, k)| Report {
                family: Box::leak(format!("build {n}").into_boxed_str()),
                bound: "the explorations of C01-C05, C07-C18 and the observations of C19 (strides in mc/src/modes.rs), compared chunk by chunk with the first build".into(),
                chunks: *k as usize,
                states: c[0],
                transitions: c[1],
                traces: c[2],
                outcomes: 0,
                samples: vec![],
                wall: o.wall / o.totals.len() as f64,
                digests: vec![],
                bad: o.bad.as_ref().map(|b| (b.1, Verdict::Violation(b.2.clone()))),
            })
            .collect();
        let mut reports = reports;
        reports[0].samples = o.samples.clone();
        write_evidence(a, &reports, &["x86-64 Linux only", "unoptimised builds explore a fixed selection of the parts the other builds explore"], o.wall, o.bad.is_some() as usize);
    }
    match o.bad {
        Some((f, c, d)) => violation(a, &f, c, &d),
        None => {
            println!("OK property={} held on everything explored", a.id);
            exit(0)
        }
    }
}

fn replay(a: &Args) -> ! {
    let text = fs::read_to_string(Path::new(&a.id)).unwrap_or_else(|e| {
        eprintln!("{}: {e}", a.id);
        exit(2)
    });
    let get = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_string()
    };
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["run", &get("property"), "--family", &get("family"), "--chunk", &get("chunk"), "--out"])
        .arg(&a.out)
        .env("VERIF_TIER", get("tier"))
        .env("VERIF_SEED", get("seed"))
        .status()
        .unwrap();
    exit(st.code().unwrap_or(2))
}
