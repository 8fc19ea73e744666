//! C06: stateless model checking of the compiled crate under the controlled
//! scheduler of rt.c. Every execution runs in a forked process, so that it
//! starts from the same state, statics included.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    collections::{BTreeMap, BTreeSet},
    ffi::{c_int, c_void},
    fmt::Write as _,
    fs,
    io::{BufRead, BufReader},
    panic::{catch_unwind, AssertUnwindSafe},
    process::{exit, Command, Stdio},
    sync::Arc,
    time::Instant,
};

use poker::{cards, deck, Card, Eval, EvalError, Evaluator, Rank, Suit};

const MAXC: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
struct Choice {
    mask: u8,
    chosen: u8,
    cur: u8,
    tid: u8,
}

#[repr(C)]
struct Shm {
    status: u32,
    n_prefix: u32,
    n_trace: u32,
    steps: u32,
    blocks: u32,
    wakes: u32,
    spawned: u32,
    mismatch: u32,
    n_shared: u32,
    overflow: u32,
    shared: [u64; 512],
    log_addr: [u64; 4096],
    log_r: [u8; 4096],
    log_w: [u8; 4096],
    n_log: u32,
    log_overflow: u32,
    text: [u8; 65536],
    prefix: [u8; MAXC],
    trace: [Choice; MAXC],
}

extern "C" {
    fn rt_init(s: *mut Shm, n: c_int, limit: u32);
    fn rt_begin(id: c_int);
    fn rt_end();
    fn rt_wait();
    fn rt_point();
    fn rt_heap();
    fn rt_alloc(n: usize, align: usize) -> *mut u8;
    fn rt_owns(p: *mut u8) -> c_int;
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, fl: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn sched_setaffinity(p: c_int, n: usize, m: *const u64) -> c_int;
    fn alarm(s: u32) -> u32;
    fn malloc_trim(n: usize) -> c_int;
}

/// Controlled threads allocate from a region of their own, so that addresses
/// do not depend on how the threads happened to start.
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = rt_alloc(l.size(), l.align());
        if p.is_null() { System.alloc(l) } else { p }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_owns(p) == 0 {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

const SUITS: [Suit; 4] = [Suit::Spades, Suit::Hearts, Suit::Diamonds, Suit::Clubs];
const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten,
    Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];

fn parse(s: &str) -> Vec<Card> {
    s.split(' ')
        .filter(|w| !w.is_empty())
        .map(|w| {
            let mut c = w.chars();
            let (r, u) = (c.next().unwrap(), c.next().unwrap());
            Card::new(RANKS["23456789TJQKA".find(r).unwrap()], SUITS["shdc".find(u).unwrap()])
        })
        .collect()
}

/// Hands chosen to collide: same ranks, same cards in another order, same
/// class with other kickers, sub- and supersets, and refused lists.
const HANDS: [&str; 20] = [
    "As Ks Qs Js Ts",
    "Ah Kd Qc Js Ts",
    "7h 5d 4c 3s 2s",
    "Th Js Qc Kd As",
    "9s 9h 9d 9c 2s",
    "2s 2h 2d 3c 3s",
    "As Ks Qs Js",
    "As Ks Qs Js As",
    "Ah Kh 9h 4h 2h 9s 9d",
    "9d 9s 2h 4h 9h Kh Ah",
    "As Ah 7c 5d 3s",
    "As Ah 7c 5d 4s",
    "As Ks Qs Js Ts 9s",
    "Kh Kd 4s 4c 8d 8h",
    "",
    "2c 2c",
    "2d 3h 4c 5s 6d 7h 8s 9c",
    "2d 3h 4c 5s 6d 7h 8s 2d",
    "5s 4s 3s 2s As",
    "2h 2s 2d 3s 3c",
];

/// Further hands, of which those are made threads of that meet in memory.
const POOL: usize = 4096;

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn hand_text(i: usize) -> String {
    if i < HANDS.len() {
        return HANDS[i].into();
    }
    let k = i - HANDS.len();
    let n = [5, 5, 5, 6, 7, 5, 5, 8][k % 8];
    let mut h = splitmix(k as u64);
    let mut v: Vec<u64> = vec![];
    while v.len() < n {
        if !v.contains(&(h % 52)) {
            v.push(h % 52);
        }
        h = splitmix(h);
    }
    if k % 64 == 63 {
        v[2] = v[0];
    }
    let mut s = String::new();
    for c in v {
        let _ = write!(s, "{}{} ", "23456789TJQKA".as_bytes()[c as usize / 4] as char, "shdc".as_bytes()[c as usize % 4] as char);
    }
    s.trim().into()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op {
    /// through the shared evaluator
    Eval(u16),
    /// through the evaluator of this thread
    Own(u16),
    /// through a clone made on the spot
    Clone(u16),
    New(u16),
    Default(u16),
    Equal,
    Pair,
    Text(u16),
    Message(u16),
    Parse,
    Deck,
    Shuffled,
    Scripted,
    Order,
}

fn result(r: Result<Eval, EvalError>) -> String {
    match r {
        Ok(e) => format!("{e:?} {:?} {e}", e.class()),
        Err(e) => format!("{e:?}"),
    }
}

struct Step(u64);
impl rand::RngCore for Step {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0.rotate_left(23)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill_with(|| self.next_u64() as u8) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

fn run_op(op: Op, shared: Option<&Evaluator>, own: Option<&Evaluator>, hands: &[Vec<Card>]) -> String {
    let h = |i: u16| &hands[i as usize];
    let shared = || shared.expect("harness: no evaluator");
    match op {
        Op::Eval(i) => result(shared().evaluate(h(i))),
        Op::Own(i) => result(own.expect("harness: no evaluator").evaluate(h(i))),
        Op::Clone(i) => result(shared().clone().evaluate(h(i))),
        Op::New(i) => result(Evaluator::new().evaluate(h(i))),
        Op::Default(i) => result(Evaluator::default().evaluate(h(i))),
        Op::Equal => format!("{}", *shared() == Evaluator::new()),
        Op::Pair => format!("{}", Evaluator::default() == Evaluator::new()),
        Op::Text(i) => match shared().evaluate(h(i)) {
            Ok(e) => format!("{e} / {} / {} {}", e.class(), e.is_pair(), e.is_straight_flush()),
            Err(e) => format!("{e:?}"),
        },
        Op::Message(i) => match shared().evaluate(h(i)) {
            Ok(e) => format!("{e}"),
            Err(e) => {
                // the order in which repeated cards are named is not fixed
                let s = e.to_string();
                let mut w: Vec<&str> = s.split([' ', ',']).collect();
                w.sort();
                w.join(" ")
            }
        },
        Op::Parse => {
            let r: Vec<_> = cards!("As Kh 1s Td9 2x 4c").collect();
            let t = r.iter().filter_map(|r| r.as_ref().err()).map(|e| e.to_string()).collect::<Vec<_>>();
            format!("{r:?} {t:?} {}", parse("As Kh")[0])
        }
        Op::Deck => deck::generate().map(|c| c.rank_suit_string()).collect(),
        Op::Shuffled => {
            let mut d: Vec<String> = deck::shuffled().iter().map(|c| c.rank_suit_string()).collect();
            d.sort();
            d.dedup();
            format!("{}", d.len())
        }
        Op::Scripted => deck::shuffled_with(&mut Step(7)).iter().map(|c| c.rank_suit_string()).collect(),
        Op::Order => {
            let e: Vec<_> = [0u16, 4, 10].iter().map(|&i| shared().evaluate(h(i))).collect();
            format!("{:?} {:?}", e[0].as_ref().ok() > e[1].as_ref().ok(), e[2].as_ref().ok().cmp(&e[1].as_ref().ok()))
        }
    }
}

/// What is executed: calls made before the threads start, then the threads.
#[derive(Clone, Debug)]
struct Case {
    scenario: &'static str,
    /// whether an evaluator exists in the process before the threads start
    cold: bool,
    warm: Vec<Op>,
    threads: Vec<Vec<Op>>,
}

fn product<T: Clone>(items: &[T], k: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..k {
        v = v.into_iter().flat_map(|p| items.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q })).collect();
    }
    v
}

/// Two hands whose evaluations touch an address that few others touch.
type Pairs = Vec<(u16, u16)>;

fn pairs_text(p: &Pairs) -> String { p.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(",") }

fn read_pairs(s: &str) -> Pairs {
    s.trim().split(',').filter_map(|w| w.split_once(' ')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect()
}

fn cases(thorough: bool, pairs: &Pairs) -> Vec<Case> {
    use Op::*;
    let mut v = vec![];
    let hands: Vec<Op> = (0..HANDS.len() as u16).map(Eval).collect();
    let mut add = |scenario, warm: Vec<Op>, threads: Vec<Vec<Op>>| v.push(Case { scenario, cold: false, warm, threads });
    for p in product(&hands, 2) {
        add("two threads, one call each, shared evaluator", vec![], vec![vec![p[0]], vec![p[1]]]);
    }
    let few: Vec<Op> = if thorough { vec![0, 1, 3, 4, 7, 10, 11, 8, 13] } else { vec![0, 1, 7, 8, 10, 11, 13] }.into_iter().map(Eval).collect();
    for p in product(&few, 4) {
        if p[..2] > p[2..] {
            continue; // the threads are interchangeable
        }
        add("two threads, two calls each, shared evaluator", vec![], vec![vec![p[0], p[1]], vec![p[2], p[3]]]);
    }
    let some: Vec<Op> = if thorough { vec![0, 1, 4, 5, 7, 8, 10, 11, 12, 13] } else { vec![0, 1, 4, 7, 8, 10, 13] }.into_iter().map(Eval).collect();
    for p in product(&some, 3) {
        if p[0] <= p[1] && p[1] <= p[2] {
            add("three threads, one call each, shared evaluator", vec![], p.iter().map(|&o| vec![o]).collect());
        }
    }
    let three: Vec<Op> = [0, 8, 13, 7].into_iter().take(if thorough { 4 } else { 3 }).map(Eval).collect();
    for p in product(&three, 6) {
        if p[..3] > p[3..] {
            continue;
        }
        add("two threads, three calls each, shared evaluator", vec![], vec![p[..3].to_vec(), p[3..].to_vec()]);
    }
    for p in product(&some, 4) {
        if p[1] != p[0] && p[2] < p[3] {
            add("two threads, one call each, after two calls", vec![p[0], p[1]], vec![vec![p[2]], vec![p[3]]]);
        }
    }
    for &(a, b) in pairs {
        let (a, b) = (Eval(a), Eval(b));
        for (warm, x, y) in [
            (vec![], vec![a], vec![b]),
            (vec![], vec![a], vec![b, b]),
            (vec![], vec![a, a], vec![b]),
            (vec![a], vec![a], vec![b]),
            (vec![b], vec![a], vec![b]),
            (vec![], vec![a, b], vec![b, a]),
            (vec![a], vec![a, b], vec![b, a]),
        ] {
            add("hands that meet in memory", warm, vec![x, y]);
        }
    }
    let own: Vec<Op> = [0, 1, 4, 7, 8, 10, 11, 6].into_iter().map(Own).collect();
    for p in product(&own, 2) {
        add("two threads, an evaluator each", vec![], vec![vec![p[0]], vec![p[1]]]);
        add("two threads, an evaluator each, two calls", vec![], vec![vec![p[0], p[1]], vec![p[1], p[0]]]);
    }
    let made = [New(1), New(0), Default(0), Clone(0), Clone(8), Equal, Eval(0), Eval(1), Eval(7), Eval(8)];
    for p in product(&made, 2) {
        add("evaluators created, cloned and compared meanwhile", vec![], vec![vec![p[0]], vec![p[1]]]);
        if thorough || p[0] != p[1] {
            add("evaluators created, cloned and compared meanwhile, then used", vec![], vec![vec![p[0], Eval(10)], vec![p[1], Eval(11)]]);
        }
    }
    let other = [Text(0), Text(5), Text(10), Message(7), Message(17), Message(6), Parse, Deck, Shuffled, Scripted, Order, Eval(8), Clone(4)];
    for p in product(&other, 2) {
        add("texts, messages, parsing, decks and comparisons meanwhile", vec![], vec![vec![p[0]], vec![p[1]]]);
    }
    for p in product(&other, 3) {
        if p[0] <= p[1] && p[1] <= p[2] {
            add("texts, messages, parsing, decks and comparisons meanwhile, three threads", vec![], p.iter().map(|&o| vec![o]).collect());
        }
    }
    if thorough {
        for p in product(&few[..4], 6) {
            if p[0] <= p[2] && p[2] <= p[4] {
                add("three threads, two calls each, shared evaluator", vec![], p.chunks(2).map(|c| c.to_vec()).collect());
            }
        }
    }
    let first = [New(0), New(8), New(7), New(2), Default(1), Pair, Parse, Deck, Shuffled, Scripted];
    let mut cold = |scenario, threads: Vec<Vec<Op>>| v.push(Case { scenario, cold: true, warm: vec![], threads });
    for p in product(&first, 2) {
        if p[0] <= p[1] {
            cold("nothing used before the threads start, two threads", vec![vec![p[0]], vec![p[1]]]);
            cold("nothing used before the threads start, two threads, two calls", vec![vec![p[0], p[1]], vec![p[1], p[0]]]);
        }
    }
    for p in product(&first[..6], 3) {
        if p[0] <= p[1] && p[1] <= p[2] {
            cold("nothing used before the threads start, three threads", p.iter().map(|&o| vec![o]).collect());
        }
    }
    v
}

#[allow(dead_code)]
struct Machine {
    shm: &'static mut Shm,
    shared: Option<Arc<Evaluator>>,
    hands: Vec<Vec<Card>>,
    alone: BTreeMap<Op, String>,
}

struct Ptr<T>(*mut T);
impl<T> Clone for Ptr<T> { fn clone(&self) -> Self { Ptr(self.0) } }
unsafe impl<T> Send for Ptr<T> {}

fn guarded(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(p) => format!(
            "PANIC {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        ),
    }
}

#[derive(Debug)]
enum End {
    Same,
    Differs(String),
    Stuck(&'static str),
    Died(i32),
    Harness(String),
}

/// Where the workers find the hands that meet in memory.
const PAIRS: &str = "/verif/work/C06.pairs";

/// Made by a worker that found something: the others need not go on.
const STOP: &str = "/verif/work/C06.stop";

const LIMIT: u32 = 400_000;

impl Machine {
    fn new() -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        unsafe { rt_heap() };
        let shm = unsafe {
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            &mut *(p as *mut Shm)
        };
        let m = Machine { shm, shared: None, hands: (0..HANDS.len() + POOL).map(|i| parse(&hand_text(i))).collect(), alone: BTreeMap::new() };
        m
    }

    /// From now on the process has an evaluator before threads start.
    fn warm_up(&mut self) {
        if self.shared.is_none() {
            // a process where even making one fails is found by other calls
            self.shared = catch_unwind(Evaluator::new).ok().map(Arc::new);
            unsafe { malloc_trim(0) };
        }
    }

    /// The outcome of one call in a process where nothing else happens.
    fn alone(&mut self, op: Op) -> Result<String, String> {
        if let Some(s) = self.alone.get(&op) {
            return Ok(s.clone());
        }
        self.shm.status = 99;
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(60);
                let s = guarded(|| run_op(op, self.shared.as_deref(), self.shared.as_deref(), &self.hands));
                self.put(&s);
                self.shm.status = 1;
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if self.shm.status != 1 {
                return Err(format!("{op:?} alone ends with wait status {st}"));
            }
        }
        let s = self.text();
        self.alone.insert(op, s.clone());
        Ok(s)
    }

    /// Runs the evaluation of every hand alone, takes down what it reads and
    /// writes that another thread could touch, and picks hands with different
    /// outcomes that meet at an address not common to all.
    fn meeting(&mut self, most: usize) -> Pairs {
        self.shm.status = 99;
        unsafe {
            rt_init(self.shm, 1, LIMIT);
            let pid = fork();
            if pid == 0 {
                alarm(100);
                let (m, shared) = (Ptr(self as *mut Machine), self.shared.clone());
                std::mem::forget(std::thread::spawn(move || {
                    let m = &mut *m.clone().0;
                    rt_begin(0);
                    let mut at: BTreeMap<u64, (Vec<u16>, bool)> = BTreeMap::new();
                    let mut out: Vec<u64> = vec![0; m.hands.len()];
                    for i in 0..m.hands.len() {
                        m.shm.steps = 0;
                        m.shm.n_log = 0;
                        m.shm.log_overflow = 0;
                        m.shm.log_addr.fill(0);
                        m.shm.log_r.fill(0);
                        m.shm.log_w.fill(0);
                        let s = guarded(|| run_op(Op::Eval(i as u16), shared.as_deref(), None, &m.hands));
                        out[i] = s.bytes().fold(7, |h, b| splitmix(h ^ b as u64));
                        if m.shm.n_log > 0 {
                            for j in 0..4096 {
                                if m.shm.log_addr[j] != 0 {
                                    let e = at.entry(m.shm.log_addr[j]).or_default();
                                    e.0.push(i as u16);
                                    e.1 |= m.shm.log_w[j] != 0;
                                }
                            }
                        }
                    }
                    let n = m.hands.len();
                    let mut pairs: Pairs = vec![];
                    // round after round over the addresses, a pair of each
                    for round in 1..8 {
                        for (k, (_, (v, w))) in at.iter().enumerate() {
                            if *w && v.len() > round && v.len() < n / 2 && pairs.len() < most && (round > 1 || k % (at.len() / most + 1) == 0) {
                                let p = (v[0], v[round]);
                                if out[p.0 as usize] != out[p.1 as usize] && !pairs.contains(&p) {
                                    pairs.push(p);
                                }
                            }
                        }
                    }
                    m.put(&pairs_text(&pairs));
                    rt_end();
                    loop {
                        std::thread::park();
                    }
                }));
                rt_wait();
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if self.shm.status != 1 {
                eprintln!("note: the evaluations one after the other do not finish (wait status {st}, scheduler {})", self.shm.status);
                return vec![];
            }
        }
        read_pairs(&self.text())
    }

    fn put(&mut self, s: &str) {
        let n = s.len().min(65000);
        self.shm.text[..n].copy_from_slice(&s.as_bytes()[..n]);
        self.shm.text[n] = 0;
    }

    fn text(&self) -> String {
        let n = self.shm.text.iter().position(|&b| b == 0).unwrap_or(0);
        String::from_utf8_lossy(&self.shm.text[..n]).into_owned()
    }

    /// One execution of a case under a schedule prefix.
    fn execute(&mut self, case: &Case, prefix: &[u8]) -> End {
        let mut want = vec![];
        for t in &case.threads {
            let mut w = vec![];
            for &o in t {
                match self.alone(o) {
                    Ok(s) => w.push(s),
                    Err(e) => return End::Harness(e),
                }
            }
            want.push(w);
        }
        self.shm.prefix[..prefix.len()].copy_from_slice(prefix);
        self.shm.n_prefix = prefix.len() as u32;
        let n = case.threads.len();
        unsafe {
            rt_init(self.shm, n as c_int, LIMIT);
            let pid = fork();
            if pid == 0 {
                alarm(60);
                for &o in &case.warm {
                    guarded(|| run_op(o, self.shared.as_deref(), self.shared.as_deref(), &self.hands));
                }
                let mut got: Vec<Vec<String>> = case.threads.iter().map(|t| vec![String::new(); t.len()]).collect();
                let owned: Vec<Option<Evaluator>> =
                    case.threads.iter().map(|t| t.iter().any(|o| matches!(o, Op::Own(_))).then(Evaluator::new)).collect();
                for (id, prog) in case.threads.iter().enumerate() {
                    let slot = Ptr(&mut got[id] as *mut Vec<String>);
                    let (shared, own, hands, prog) =
                        (self.shared.clone(), Ptr(&owned[id] as *const _ as *mut Option<Evaluator>), Ptr(&mut self.hands as *mut Vec<Vec<Card>>), prog.clone());
                    std::mem::forget(std::thread::spawn(move || {
                        let (slot, own, hands) = (slot.clone(), own.clone(), hands.clone());
                        rt_begin(id as c_int);
                        for (k, &o) in prog.iter().enumerate() {
                            if k > 0 {
                                rt_point();
                            }
                            let s = guarded(|| run_op(o, shared.as_deref(), (*own.0).as_ref(), &*hands.0));
                            (&mut *slot.0)[k] = s;
                        }
                        // the last handle of this thread to the evaluator
                        drop(shared);
                        rt_end();
                        loop {
                            std::thread::park();
                        }
                    }));
                }
                rt_wait();
                for (t, (g, w)) in got.iter().zip(&want).enumerate() {
                    for (k, (g, w)) in g.iter().zip(w).enumerate() {
                        if g != w && self.shm.mismatch == 0 {
                            self.shm.mismatch = 1;
                            self.put(&format!("call {} of thread {} ({}) gives {g:?}, alone it gives {w:?}", k + 1, t + 1, show(case.threads[t][k])));
                        }
                    }
                }
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let sig = st & 0x7f;
            match self.shm.status {
                1 if sig == 0 => {
                    if self.shm.mismatch != 0 {
                        End::Differs(self.text())
                    } else {
                        End::Same
                    }
                }
                2 => End::Stuck("every thread waits for another one: no call returns"),
                3 => End::Stuck("the calls do not return (still running after 400,000 synchronisation steps)"),
                4 => End::Harness("the schedule could not be repeated".into()),
                5 | 6 => End::Harness(format!("execution too large (status {})", self.shm.status)),
                _ if sig == 14 => End::Harness("execution timed out outside the scheduler".into()),
                _ if sig != 0 => End::Died(sig),
                s => End::Harness(format!("process ended with status {st}, scheduler {s}")),
            }
        }
    }
}

fn show(o: Op) -> String {
    match o {
        Op::Eval(i) | Op::Own(i) | Op::Clone(i) | Op::New(i) | Op::Default(i) | Op::Text(i) | Op::Message(i) => {
            format!("{} [{}]", format!("{o:?}").split('(').next().unwrap(), hand_text(i as usize))
        }
        _ => format!("{o:?}"),
    }
}

fn show_case(c: &Case) -> String {
    let list = |v: &[Op]| v.iter().map(|&o| show(o)).collect::<Vec<_>>().join("; ");
    let mut s = format!("{}: ", c.scenario);
    if !c.warm.is_empty() {
        let _ = write!(s, "first {}; then ", list(&c.warm));
    }
    let _ = write!(s, "{}", c.threads.iter().map(|t| list(t)).collect::<Vec<_>>().join(" || "));
    s
}

#[derive(Default, Clone)]
struct Count {
    cases: u64,
    nodes: u64,
    steps: u64,
    runs: u64,
    blocks: u64,
    deepest: u64,
    pruned: u64,
    diverged: u64,
}

type Bad = (Vec<u8>, BTreeSet<u64>, String);

/// All schedules of a case with at most `bound` preemptions. A thread is only
/// preempted before it touches an address at which threads conflict (two
/// threads, one of them writing, in any execution of this case); when a new one
/// comes up the exploration starts again with it.
fn explore(m: &mut Machine, case: &Case, bound: u32, until: Instant, n: &mut Count) -> Result<bool, Bad> {
    let mut shared = BTreeSet::new();
    loop {
        let mut c = Count { cases: 1, diverged: n.diverged, ..Count::default() };
        let r = explore_with(m, case, bound, until, &mut c, &mut shared)?;
        *n = c;
        if let Some(done) = r {
            return Ok(done);
        }
    }
}

impl Machine {
    fn set_shared(&mut self, shared: &BTreeSet<u64>) {
        self.shm.overflow = (shared.len() > 512) as u32;
        self.shm.n_shared = shared.len().min(512) as u32;
        for (slot, &a) in self.shm.shared.iter_mut().zip(shared) {
            *slot = a;
        }
    }

    /// Addresses at which threads conflicted in the last execution.
    fn conflicts(&self, into: &mut BTreeSet<u64>) -> bool {
        let before = into.len();
        if self.shm.log_overflow != 0 {
            into.extend(1..600);
        }
        for i in 0..4096 {
            let (r, w) = (self.shm.log_r[i], self.shm.log_w[i]);
            if w != 0 && (r | w).count_ones() > 1 {
                into.insert(self.shm.log_addr[i]);
            }
        }
        into.len() > before
    }
}

fn explore_with(m: &mut Machine, case: &Case, bound: u32, until: Instant, n: &mut Count, shared: &mut BTreeSet<u64>) -> Result<Option<bool>, Bad> {
    m.set_shared(shared);
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    let mut tries = 0;
    while let Some(p) = todo.pop() {
        if Instant::now() > until || fs::exists(STOP).unwrap_or(false) {
            return Ok(Some(false));
        }
        match m.execute(case, &p) {
            End::Same => {}
            End::Differs(s) => return Err((chosen(m), shared.clone(), s)),
            End::Stuck(s) => return Err((chosen(m), shared.clone(), s.into())),
            End::Died(s) => return Err((chosen(m), shared.clone(), format!("the process is killed by signal {s}"))),
            End::Harness(s) => {
                tries += 1;
                if s.contains("repeated") && tries < 5 {
                    n.diverged += 1;
                    continue;
                }
                if std::env::var("MT_DEBUG").is_ok() {
                    eprintln!("prefix {p:?} trace {:?} shared {shared:x?}", m.shm.trace[..m.shm.n_trace as usize].iter().map(|c| (c.mask, c.chosen, c.cur, c.tid)).collect::<Vec<_>>());
                }
                eprintln!("ENGINE-ERROR {s} in {}", show_case(case));
                exit(2)
            }
        }
        if m.conflicts(shared) {
            return Ok(None);
        }
        n.runs += 1;
        n.steps += m.shm.steps as u64;
        n.blocks += m.shm.blocks as u64;
        let len = m.shm.n_trace as usize;
        n.nodes += (len - p.len().min(len)) as u64 + 1;
        n.deepest = n.deepest.max(len as u64);
        let t = &m.shm.trace[..len];
        let mut cost = 0;
        for i in 0..len {
            let c = t[i];
            if i >= p.len() {
                for alt in 0..8u8 {
                    if alt != c.chosen && c.mask >> alt & 1 != 0 {
                        if cost + (c.cur != 255 && alt != c.cur) as u32 <= bound {
                            let mut q: Vec<u8> = t[..i].iter().map(|c| c.chosen).collect();
                            q.push(alt);
                            todo.push(q);
                        } else {
                            n.pruned += 1;
                        }
                    }
                }
            }
            cost += (c.cur != 255 && c.chosen != c.cur) as u32;
        }
    }
    Ok(Some(true))
}

fn chosen(m: &Machine) -> Vec<u8> { m.shm.trace[..m.shm.n_trace as usize].iter().map(|c| c.chosen).collect() }

fn worker(k: usize, of: usize, thorough: bool, budget: u64, cold: bool) {
    unsafe {
        let mask = [1u64 << (k % 64), 0];
        sched_setaffinity(0, 16, mask.as_ptr());
    }
    let until = Instant::now() + std::time::Duration::from_secs(budget);
    let mut m = Machine::new();
    let all = cases(thorough, &read_pairs(&fs::read_to_string(PAIRS).unwrap_or_default()));
    let here: Vec<usize> = (0..all.len()).filter(|&i| i % of == k && all[i].cold == cold).collect();
    let mut best: BTreeMap<usize, (Count, i64)> = BTreeMap::new(); // bound reached; i64::MAX: no bound needed
    if !cold {
        m.warm_up();
    }
    'stages: {
        for bound in [0, 1, 2, 3, 4, 6, 8, 12] {
            for &i in &here {
                // the code that reads random numbers has many synchronisation points of its own
                let most = match all[i].scenario {
                    _ if thorough => 12,
                    s if s.starts_with("texts") => 2,
                    _ => 6,
                };
                if bound > most || best.get(&i).is_some_and(|b| b.1 == i64::MAX) {
                    continue;
                }
                let mut n = Count { cases: 1, ..Count::default() };
                match explore(&mut m, &all[i], bound, until, &mut n) {
                    Ok(true) => {
                        let b = if n.pruned == 0 { i64::MAX } else { bound as i64 };
                        best.insert(i, (n, b));
                    }
                    Ok(false) => break 'stages,
                    Err((sched, shared, what)) => {
                    let _ = fs::write(STOP, "");
                        let list = |v: Vec<String>| v.join(",");
                        println!(
                            "BAD\t{i}\t{}\t{}/{}\t{what}",
                            show_case(&all[i]),
                            list(sched.iter().map(|c| c.to_string()).collect()),
                            list(shared.iter().map(|c| c.to_string()).collect())
                        );
                        return;
                    }
                }
            }
        }
    }
    for &i in &here {
        if let Some((n, b)) = best.get(&i) {
            println!("CASE\t{i}\t{b}\t{}\t{}\t{}\t{}\t{}", n.nodes, n.steps, n.runs, n.blocks, n.deepest);
        } else {
            println!("CASE\t{i}\t-1\t0\t0\t0\t0\t0");
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    match a.get(1).map(|s| &s[..]) {
        Some("worker") => worker(a[2].parse().unwrap(), a[3].parse().unwrap(), thorough, a[4].parse().unwrap(), a[5] == "cold"),
        Some("pairs") => {
            let mut m = Machine::new();
            m.warm_up();
            let p = if m.shared.is_some() { m.meeting(a[2].parse().unwrap()) } else { vec![] };
            fs::write(PAIRS, pairs_text(&p)).unwrap();
        }
        Some("replay") => replay(&a[2]),
        Some("check") => check(thorough),
        _ => exit(2),
    }
}

fn replay(f: &str) {
    let text = fs::read_to_string(f).unwrap();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_string();
    let case = &cases(get("tier") == "thorough", &read_pairs(&get("pairs")))[get("case").parse::<usize>().unwrap()];
    let mut m = Machine::new();
    if !case.cold {
        m.warm_up();
    }
    println!("{}", show_case(case));
    let until = Instant::now() + std::time::Duration::from_secs(600);
    for bound in [0, 1, 2, 3, 4, 6, 8, 12] {
        let mut n = Count::default();
        match explore(&mut m, case, bound, until, &mut n) {
            Ok(true) if n.pruned == 0 => break,
            Ok(_) => {}
            Err((sched, _, what)) => {
                println!("{what} under schedule {sched:?}");
                println!("VIOLATION property=C06 replay={f}");
                exit(1)
            }
        }
    }
    exit(0)
}

fn quote(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ")) }

fn check(thorough: bool) {
    let t0 = Instant::now();
    let budget = if thorough { 600 } else { 150 };
    let _ = fs::create_dir_all("/verif/work");
    let _ = fs::remove_file(STOP);
    // (in a process of its own: this one is not to have an evaluator)
    let _ = fs::remove_file(PAIRS);
    let me = std::env::current_exe().unwrap();
    let _ = Command::new(&me).args(["pairs", if thorough { "300" } else { "60" }]).status();
    let pairs = read_pairs(&fs::read_to_string(PAIRS).unwrap_or_default());
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(64);
    let mut kids: Vec<_> = (0..2 * workers)
        .map(|k| {
            Command::new(&me)
                .args(["worker", &(k / 2).to_string(), &workers.to_string(), &budget.to_string(), ["cold", "warm"][k % 2]])
                .stdout(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    let all = cases(thorough, &pairs);
    let mut bad: Option<(usize, String, String, String)> = None;
    let mut per: BTreeMap<&'static str, (u64, u64, u64, u64, u64, u64, i64)> = BTreeMap::new();
    let mut engine = false;
    for k in &mut kids {
        for l in BufReader::new(k.stdout.take().unwrap()).lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split('\t').collect();
            match w[0] {
                "BAD" => {
                    let i = w[1].parse().unwrap();
                    if bad.as_ref().map_or(true, |b| i < b.0) {
                        bad = Some((i, w[2].into(), w[3].into(), w[4].into()));
                    }
                }
                "CASE" => {
                    let n: Vec<i64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
                    let e = per.entry(all[n[0] as usize].scenario).or_insert((0, 0, 0, 0, 0, 0, i64::MAX));
                    e.0 += 1;
                    e.1 += n[2] as u64;
                    e.2 += n[3] as u64;
                    e.3 += n[4] as u64;
                    e.4 += n[5] as u64;
                    e.5 = e.5.max(n[6] as u64);
                    e.6 = e.6.min(n[1]);
                }
                _ => println!("{l}"),
            }
        }
        engine |= !k.wait().unwrap().success();
    }
    let _ = fs::remove_file(STOP);
    if bad.is_none() && engine {
        eprintln!("ENGINE-ERROR a worker failed");
        exit(2);
    }
    let mut fams = vec![];
    let (mut nodes, mut steps, mut runs) = (0, 0, 0);
    let mut complete = true;
    for (name, e) in &per {
        let how = match e.6 {
            i64::MAX => "all interleavings".to_string(),
            -1 => "time ran out before every case was run".to_string(),
            b => format!("all interleavings with at most {b} preemptions"),
        };
        complete &= e.6 >= 2;
        println!("C06 {name}: cases={} states={} transitions={} executions={} blocked={} longest={} ({how})", e.0, e.1, e.2, e.3, e.4, e.5);
        fams.push(format!("{{\"family\":{},\"bound\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"blocking_waits\":{},\"longest_schedule\":{}}}", quote(name), quote(&how), e.0, e.1, e.2, e.3, e.4, e.5));
        nodes += e.1;
        steps += e.2;
        runs += e.3;
    }
    let sample: Vec<String> = all.iter().step_by(all.len() / 4).map(|c| quote(&show_case(c))).collect();
    let text = format!(
        "{{\"property\":\"C06\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{nodes},\"transitions\":{steps},\"traces_validated_against_impl\":{runs},\"exhaustive\":{},\"samples\":[{}],\"families\":[{}],\"counting\":\"states: nodes of the schedule trees; transitions: scheduling decisions taken by controlled executions of the compiled crate; traces: executions, each compared with the calls run alone\"}},\"assumptions\":[\"sequentially consistent memory\",\"std's own slow paths run as one step between their futex calls\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        if thorough { "thorough" } else { "quick" },
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        complete && bad.is_none(),
        sample.join(","),
        fams.join(","),
        t0.elapsed().as_secs_f64(),
        bad.is_some() as u32,
    );
    fs::write("/verif/evidence/C06.json", text).unwrap();
    match bad {
        None => println!("OK property=C06 held on everything explored"),
        Some((i, case, sched, what)) => {
            let p = format!("/verif/replays/C06-{i}.txt");
            let _ = fs::create_dir_all("/verif/replays");
            fs::write(&p, format!("property=C06\ntier={}\ncase={i}\npairs={}\nschedule={sched}\ndetail={case}: {what}\n", if thorough { "thorough" } else { "quick" }, pairs_text(&pairs))).unwrap();
            println!("{case}: {what} under schedule {sched}");
            println!("VIOLATION property=C06 replay={p}");
            exit(1)
        }
    }
}
