//! Exhaustive exploration engine: a property is a list of families, a family a
//! number of chunks, each chunk a deterministic walk over part of a finite
//! space that executes the real implementation and compares it with the model.

use std::{
    any::Any,
    cell::RefCell,
    collections::BTreeSet,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Mutex,
    },
    time::{Duration, Instant},
};

/// Raised (by panic) by a chunk when implementation and model disagree.
pub struct Violation(pub String);

/// Raised when the harness itself is wrong; never a verdict.
pub struct EngineError(pub String);

pub type Run<'a> = Box<dyn Fn(usize, &mut Ctx) + Send + Sync + 'a>;

pub struct Family<'a> {
    pub name: &'static str,
    /// what is enumerated, and within which bound
    pub bound: String,
    pub chunks: usize,
    pub run: Run<'a>,
    /// how to print the in-flight note of this family
    pub describe: fn(u64) -> String,
}

pub fn family<'a>(
    name: &'static str,
    bound: impl Into<String>,
    chunks: usize,
    run: impl Fn(usize, &mut Ctx) + Send + Sync + 'a,
) -> Family<'a> {
    Family { name, bound: bound.into(), chunks, run: Box::new(run), describe: |n| format!("item {n}") }
}

impl<'a> Family<'a> {
    pub fn describe(mut self, f: fn(u64) -> String) -> Self {
        self.describe = f;
        self
    }
}

#[derive(Default)]
struct Slot {
    note: AtomicU64,
    chunk: AtomicU64,
    beat: AtomicU64,
}

pub struct Ctx<'s> {
    slot: &'s Slot,
    careful: Option<&'s std::fs::File>,
    /// distinct model states of the explored space
    pub states: u64,
    /// implementation observations compared with the model
    pub transitions: u64,
    /// complete executions (inputs or operation histories) run on the implementation
    pub traces: u64,
    outcomes: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub digest: u64,
}

impl Ctx<'_> {
    /// Record what is about to be executed, so that a panic or hang can be
    /// attributed to it.
    #[inline(always)]
    pub fn note(&mut self, n: u64) {
        self.slot.note.store(n, Relaxed);
        if let Some(f) = self.careful {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{n:020}\n").as_bytes(), 0);
        }
    }

    /// Tell the watchdog that the harness itself is alive.
    #[inline(always)]
    pub fn beat(&mut self) { self.slot.beat.fetch_add(1, Relaxed); }

    pub fn outcome(&mut self, o: u64) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(o);
        }
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }

    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.digest = (self.digest.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}

#[cold]
pub fn fail(detail: String) -> ! { panic::panic_any(Violation(detail)) }

#[cold]
pub fn engine_error(detail: String) -> ! { panic::panic_any(EngineError(detail)) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => { if !$c { $crate::engine::fail(format!($($f)+)) } };
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_text(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Violation(String),
    Engine(String),
}

pub struct Report {
    pub family: &'static str,
    pub bound: String,
    pub chunks: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: usize,
    pub samples: Vec<String>,
    pub wall: f64,
    pub digests: Vec<u64>,
    pub bad: Option<(usize, Verdict)>,
}

pub struct Options {
    pub threads: usize,
    pub only_chunk: Option<usize>,
    pub careful: Option<std::fs::File>,
    pub progress: Option<std::fs::File>,
    pub hang_s: u64,
    /// explore only about one in this many chunks (a fixed selection)
    pub stride: u64,
}

/// Run `f`, turning whatever it panics with into a verdict.
pub fn judged(note: impl Fn() -> String, f: impl FnOnce()) -> Result<(), Verdict> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(p) => Err(if let Some(v) = p.downcast_ref::<Violation>() {
            Verdict::Violation(v.0.clone())
        } else if let Some(v) = p.downcast_ref::<EngineError>() {
            Verdict::Engine(v.0.clone())
        } else {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
            // harness sources are compiled with relative paths, /repo and std are not
            if loc.starts_with("src/") || loc.starts_with("/verif/") {
                Verdict::Engine(format!("harness panic at {loc}: {msg}"))
            } else {
                Verdict::Violation(format!(
                    "implementation panicked at {loc}: {msg} while executing {}",
                    note()
                ))
            }
        }),
    }
}

/// Selections nest: what is selected for a multiple of `stride` is selected for
/// `stride` too.
pub fn selected(chunk: usize, chunks: usize, stride: u64) -> bool {
    chunk + 1 == chunks || crate::env::splitmix(chunk as u64) % stride.max(1) == 0
}

pub fn explore(fam: &Family, opt: &Options, fam_no: usize) -> Report {
    install_hook();
    let next = AtomicUsize::new(opt.only_chunk.unwrap_or(0));
    let end = opt.only_chunk.map(|c| c + 1).unwrap_or(fam.chunks);
    let limit = AtomicUsize::new(end);
    let bad: Mutex<Option<(usize, Verdict)>> = Mutex::new(None);
    let merged = Mutex::new((0u64, 0u64, 0u64, BTreeSet::new(), Vec::<(usize, String)>::new(), vec![0u64; fam.chunks]));
    let threads = if opt.only_chunk.is_some() { 1 } else { opt.threads.min(end.max(1)) };
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let finished = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        let watchdog = sc.spawn(|| {
            let mut seen: Vec<((u64, u64, u64), Instant)> = slots.iter().map(|_| ((0, 0, 0), Instant::now())).collect();
            while !finished.load(Relaxed) {
                std::thread::park_timeout(Duration::from_millis(500));
                for (i, s) in slots.iter().enumerate() {
                    let now = (s.note.load(Relaxed), s.chunk.load(Relaxed), s.beat.load(Relaxed));
                    if now != seen[i].0 || now.1 == 0 {
                        seen[i] = (now, Instant::now());
                    } else if seen[i].1.elapsed().as_secs() >= opt.hang_s {
                        // the hung call cannot be cancelled: report and leave
                        hang(fam, now.1 as usize - 1, now.0, opt.hang_s);
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..threads {
            let slot = &slots[w];
            let (next, limit, bad, merged) = (&next, &limit, &bad, &merged);
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut acc = (0u64, 0u64, 0u64, BTreeSet::new(), vec![], vec![]);
                loop {
                    let c = next.fetch_add(1, Relaxed);
                    if c >= limit.load(Relaxed) {
                        break;
                    }
                    if opt.only_chunk.is_none() && !selected(c, fam.chunks, opt.stride) {
                        continue;
                    }
                    slot.note.store(0, Relaxed);
                    slot.chunk.store(c as u64 + 1, Relaxed);
                    if let Some(f) = &opt.progress {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(format!("{:010} {:010}\n", fam_no, c).as_bytes(), 22 * w as u64);
                    }
                    let mut ctx = Ctx {
                        slot,
                        careful: opt.careful.as_ref(),
                        states: 0,
                        transitions: 0,
                        traces: 0,
                        outcomes: BTreeSet::new(),
                        samples: vec![],
                        digest: 0xcbf2_9ce4_8422_2325,
                    };
                    let r = judged(
                        || (fam.describe)(slot.note.load(Relaxed)),
                        || (fam.run)(c, &mut ctx),
                    );
                    if let Err(v) = r {
                        limit.fetch_min(c, Relaxed);
                        let mut b = bad.lock().unwrap();
                        if b.as_ref().map_or(true, |(k, _)| c < *k) {
                            *b = Some((c, v));
                        }
                    }
                    acc.0 += ctx.states;
                    acc.1 += ctx.transitions;
                    acc.2 += ctx.traces;
                    let seen = [ctx.states, ctx.transitions, ctx.traces];
                    let outs: Vec<u64> = ctx.outcomes.iter().copied().collect();
                    for v in seen.into_iter().chain(outs) {
                        ctx.mix(v);
                    }
                    acc.3.append(&mut ctx.outcomes);
                    acc.5.push((c, ctx.digest));
                    if acc.4.len() < 3 {
                        acc.4.extend(ctx.samples.drain(..).map(|s| (c, s)));
                    }
                }
                slot.chunk.store(0, Relaxed);
                let mut m = merged.lock().unwrap();
                m.0 += acc.0;
                m.1 += acc.1;
                m.2 += acc.2;
                m.3.append(&mut acc.3);
                m.4.append(&mut acc.4);
                for (c, d) in acc.5 {
                    m.5[c] = d;
                }
            }).unwrap());
        }
        for h in hs {
            h.join().unwrap();
        }
        finished.store(true, Relaxed);
        watchdog.thread().unpark();
    });
    let (states, transitions, traces, outcomes, mut samples, digests) = merged.into_inner().unwrap();
    samples.sort();
    samples.truncate(3);
    Report {
        family: fam.name,
        bound: fam.bound.clone(),
        chunks: end,
        states,
        transitions,
        traces,
        outcomes: outcomes.len(),
        samples: samples.into_iter().map(|s| s.1).collect(),
        wall: t0.elapsed().as_secs_f64(),
        digests,
        bad: bad.into_inner().unwrap(),
    }
}

/// A call that has not returned for `hang_s` seconds is reported from the
/// watchdog; exit code 17 asks the supervisor to record the violation.
fn hang(fam: &Family, chunk: usize, note: u64, hang_s: u64) -> ! {
    println!(
        "HANG family={} chunk={} a call did not return within {hang_s} s: {}",
        fam.name,
        chunk,
        (fam.describe)(note)
    );
    std::process::exit(17)
}
