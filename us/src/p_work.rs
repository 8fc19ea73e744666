//! C27: the work a call takes. Callgrind counts the instructions of each call
//! in a run of the program `work`; the counts are judged here.

use std::{
    collections::BTreeMap,
    io::{BufRead, BufReader},
    os::unix::process::{CommandExt, ExitStatusExt},
    path::PathBuf,
    process::{Command, Stdio},
    sync::{Mutex, PoisonError},
};

use mc::{
    engine::{engine_error, fail, family, Ctx, Family},
    ensure,
    env::Env,
};

/// Between taking a folder and giving it back.
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static NR: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("verif-work-{}-{}", std::process::id(), NR.fetch_add(1, Relaxed)));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| engine_error(format!("no scratch folder {}: {e}", dir.display())));
    Scratch(dir)
}

fn program() -> PathBuf {
    let me = std::env::current_exe().unwrap_or_else(|e| engine_error(format!("own path: {e}")));
    me.parent().and_then(|d| d.parent()).unwrap_or_else(|| engine_error("own path".into())).join("lean/work")
}

struct Counted {
    what: String,
    limit: Limit,
    count: u64,
}
#[derive(PartialEq)]
enum Limit {
    Most(u64),
    Series(u64, u64),
    Like(usize),
}

static SPAWN: Mutex<()> = Mutex::new(());

fn measured(ctx: &mut Ctx, args: &[String]) -> Vec<Counted> {
    let dir = scratch();
    let out = dir.0.join("counts");
    let bad = |s: String| -> ! { engine_error(format!("work {}: {s}", args.join(" "))) };
    let mut cmd = Command::new("valgrind");
    cmd.args(["--tool=callgrind", "--quiet", "--combine-dumps=yes", "--main-stacksize=67108864"]);
    cmd.arg(format!("--callgrind-out-file={}", out.display())).arg(program()).args(args);
    cmd.current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped());
    cmd.stderr(std::fs::File::create(dir.0.join("err")).unwrap_or_else(|e| bad(e.to_string())));
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut kid = {
        let _one = SPAWN.lock().unwrap_or_else(PoisonError::into_inner);
        cmd.spawn().unwrap_or_else(|e| bad(format!("valgrind does not start: {e}")))
    };
    let mut all: Vec<Counted> = vec![];
    let (mut started, mut done) = (false, None);
    for line in BufReader::new(kid.stdout.take().unwrap_or_else(|| bad("no output".into()))).lines() {
        ctx.beat();
        let line = line.unwrap_or_else(|e| bad(e.to_string()));
        let p: Vec<&str> = line.splitn(5, '\t').collect();
        let num = |i: usize| p.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| bad(format!("line {line:?}")));
        match p[0] {
            "start" => started = true,
            "done" => done = Some(num(1) as usize),
            _ => {
                ctx.note(num(0));
                let limit = match p[1] {
                    "most" => Limit::Most(num(2)),
                    "series" => Limit::Series(num(2), num(3)),
                    "like" => Limit::Like(num(2) as usize),
                    _ => bad(format!("line {line:?}")),
                };
                all.push(Counted { what: p[4].to_string(), limit, count: 0 });
            }
        }
    }
    let status = kid.wait().unwrap_or_else(|e| bad(e.to_string()));
    let err = std::fs::read_to_string(dir.0.join("err")).unwrap_or_default();
    if done != Some(all.len()) || !status.success() {
        let tail = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
        if !started || status.signal() == Some(libc::SIGKILL) || err.contains("valgrind: ") {
            bad(format!("{status}: {tail}"));
        }
        fail(format!("the program did not come to its end ({status}) doing: {} ({tail})", all.last().map_or("everything once", |c| &c.what)));
    }
    let text = std::fs::read_to_string(&out).unwrap_or_else(|e| bad(e.to_string()));
    let (mut which, mut counts) = (None, BTreeMap::new());
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("desc: Trigger: Client Request: K") {
            which = n.trim().parse::<usize>().ok();
        } else if let Some(n) = l.strip_prefix("summary: ") {
            if let Some(k) = which.take() {
                counts.insert(k, n.trim().parse::<u64>().unwrap_or_else(|_| bad(format!("line {l:?}"))));
            }
        }
    }
    for (k, c) in all.iter_mut().enumerate() {
        c.count = *counts.get(&k).unwrap_or_else(|| bad(format!("no count for {k}: {}", c.what)));
    }
    all
}

/// A call that is not small for its input: this many instructions per unit, or
/// three doublings of the input that each more than triple the count.
const FREE: u64 = 20_000;

fn judge(ctx: &mut Ctx, args: &[&dyn ToString], noted: bool) {
    let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
    let all = measured(ctx, &args);
    let mut series: Vec<(u64, u64)> = vec![];
    for (i, c) in all.iter().enumerate() {
        ctx.transitions += 1;
        ctx.states += 1;
        ctx.traces += 1;
        ctx.outcome(c.count.max(1).ilog2() as u64);
        if i % 97 == 0 {
            ctx.sample(|| format!("{} instructions to {}", c.count, c.what));
        }
        if noted {
            eprintln!("{}\t{}\t{}", c.count, match c.limit { Limit::Most(n) => format!("{:.3}", c.count as f64 / n as f64), Limit::Series(n, per) => format!("{:.3}", c.count as f64 / (FREE + n * per) as f64), Limit::Like(j) => format!("{:.3}", c.count as f64 / (all[j].count * 3 + 5_000) as f64) }, c.what);
        }
        match c.limit {
            Limit::Most(n) => ensure!(c.count <= n, "{} instructions, where {n} are more than enough, to {}", c.count, c.what),
            Limit::Like(j) => {
                let was = &all.get(j).unwrap_or_else(|| engine_error(format!("nothing to compare {:?} with", c.what))).count;
                ensure!(c.count <= 3 * was + 5_000, "{} instructions, and {was} before, to {}", c.count, c.what);
            }
            Limit::Series(n, per) => {
                if i == 0 || all[i - 1].what != c.what {
                    series.clear();
                }
                series.push((n, c.count));
                ensure!(c.count <= FREE + per * n, "{} instructions for size {n}, over {per} for each unit, to {}", c.count, c.what);
                if let [.., a, b, c1, d] = series[..] {
                    let steep = [(a, b), (b, c1), (c1, d)].iter().all(|(x, y)| y.1 > 3 * x.1);
                    ensure!(!steep || n <= 512 || d.1 < 20 * n, "the work grows faster than the input, {} {} {} {} instructions for sizes {} {} {} {}, to {}", a.1, b.1, c1.1, d.1, a.0, b.0, c1.0, d.0, c.what);
                }
            }
        }
    }
}

const HANDS: usize = 24;

/// The uses of `work::plain`, and which of those cost more than a few thousand instructions.
fn uses() -> Vec<(usize, u32)> { (5..32).chain([0, 3]).map(|i| (i, match i { 0 | 3 => 0, 8 | 31 => 2, 6 | 7 => 1, _ => 3 })).collect() }

pub fn c27(env: &Env) -> Vec<Family<'_>> {
    let thorough = env.thorough();
    let noted = std::env::var_os("VERIF_COUNTS").is_some();
    let top = if thorough { 18 } else { 15 };
    let long = if thorough { [256, 8_192, 2_048, 262_144] } else { [32, 2_048, 512, 32_768] };
    let uses = uses();
    vec![
        family("hands", "a five-card hand of each of the 7,462 strengths, a spread of larger hands that contain each eighth of them, and the texts and comparisons of the results: at most 3,000 instructions and 1,000 for each choice of five cards", HANDS, move |c, ctx| judge(ctx, &[&"hands", &c, &HANDS], noted)).describe(|n| format!("counted call {n} of the part")),
        family("small", "evaluators built, cloned and compared; 0 to 26 cards evaluated; everything about each card; decks; shuffles with 60 seeds: each, twice, within its limit", 1, move |_, ctx| judge(ctx, &[&"small"], noted)).describe(|n| format!("counted call {n}")),
        family("scaling", format!("32 calls with inputs of every size 2^4 to 2^{top} (lists of cards to evaluate: to 2^9): at most 2,000 instructions per unit of input, and no three doublings in a row that each more than triple the work"), 8, move |c, ctx| judge(ctx, &[&"scaling", &c, &top], noted)).describe(|n| format!("counted call {n} of the part")),
        family("history", format!("after each of {} uses is made up to {} times with ever different inputs, each of the uses is counted: at most three times its count before, and 5,000", uses.len(), long[3]), uses.len(), move |c, ctx| judge(ctx, &[&"history", &c, &long[uses[c].1 as usize]], noted)).describe(|n| format!("counted call {n} of the part")),
    ]
}
