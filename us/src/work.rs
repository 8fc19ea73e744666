//! Run under callgrind by C27: does things and has the instructions each of
//! them takes counted. Says on standard output what was counted.

#[allow(dead_code)]
mod ops;

use std::{
    alloc::{GlobalAlloc, Layout},
    cell::UnsafeCell,
    hint::black_box as see,
    sync::atomic::{AtomicBool, Ordering::{Acquire, Release}},
};

use mc::{env::Env, refm};
use poker::{box_cards, cards, deck, Card, EvalClass, Evaluator};
use rand::{rngs::StdRng, Error, RngCore, SeedableRng};

use ops::{op, User, N, NAMES};

/// An allocator that takes about the same few instructions for every request:
/// the system's now and then tidies up after calls counted long before.
struct Even(AtomicBool, UnsafeCell<[*mut u8; 40]>, UnsafeCell<(usize, usize)>);
unsafe impl Sync for Even {}
#[global_allocator]
static EVEN: Even = Even(AtomicBool::new(false), UnsafeCell::new([std::ptr::null_mut(); 40]), UnsafeCell::new((0, 0)));

fn class(l: Layout) -> u32 { l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() }

unsafe impl GlobalAlloc for Even {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(l);
        while self.0.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let free = &mut (*self.1.get())[c as usize];
        let mut p = *free;
        if !p.is_null() {
            *free = *(p as *mut *mut u8);
        } else {
            let (next, end) = &mut *self.2.get();
            let size = 1usize << c;
            let mut at = (*next + size.min(4096) - 1) & !(size.min(4096) - 1);
            if at + size > *end {
                let more = size.max(1 << 26);
                let m = libc::mmap(std::ptr::null_mut(), more, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
                if m == libc::MAP_FAILED {
                    self.0.store(false, Release);
                    return std::ptr::null_mut();
                }
                at = m as usize;
                *end = at + more;
            }
            *next = at + size;
            p = at as *mut u8;
        }
        self.0.store(false, Release);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        while self.0.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let free = &mut (*self.1.get())[class(l) as usize];
        *(p as *mut *mut u8) = *free;
        *free = p;
        self.0.store(false, Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = Layout::from_size_align_unchecked(n, l.align());
        if class(l) == class(m) {
            return p;
        }
        let q = self.alloc(m);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

fn request(nr: u64, arg: u64) {
    let args = [0x4354_0000 + nr, arg, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0u64 => _,
        );
    }
}

/// What a count may not exceed.
enum Limit {
    /// this many instructions
    Most(u64),
    /// size, instructions per unit of it; part of a series in which the size doubles
    Series(usize, u64),
    /// not much more than the count so named
    Like(String),
}

struct Out(usize, bool);
impl Out {
    fn count(&mut self, what: &str, limit: Limit, f: impl FnOnce()) {
        let name = format!("K{}\0", self.0);
        let l = match limit {
            Limit::Most(n) => format!("most\t{n}\t0"),
            Limit::Series(n, per) => format!("series\t{n}\t{per}"),
            Limit::Like(s) => format!("like\t{s}\t0"),
        };
        println!("{}\t{l}\t{}", self.0, what.escape_debug());
        self.0 += 1;
        if self.1 {
            return f();
        }
        request(1, 0);
        f();
        request(3, name.as_ptr() as u64);
    }
}

fn choose5(n: usize) -> u64 { (0..5).fold(1, |c, i| c * (n as u64).saturating_sub(i) / (i + 1)) }

/// Instructions for a hand of n cards: 1,000 for each choice of five.
fn hand_limit(n: usize) -> u64 { 3_000 + 1_000 * choose5(n) }

struct Refused(u64, StdRng);
impl RngCore for Refused {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        if self.0 > 0 {
            self.0 -= 1;
            return u64::MAX;
        }
        self.1.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

fn hands(o: &mut Out, c: usize, parts: usize) {
    let env = Env::new(mc::env::Tier::Quick, 1);
    let d = refm::deck();
    let ev = Evaluator::new();
    see(ev.evaluate([d[0], d[5], d[10], d[15], d[21]]).is_ok());
    for (i, h) in env.strengths().rep.iter().enumerate().filter(|(i, _)| i % parts == c) {
        let five = h.map(|x| d[x]);
        o.count(&refm::hand_text(h), Limit::Most(hand_limit(5)), || drop(see(ev.evaluate(five))));
        if i % 8 == c % 8 {
            let mut more = h.to_vec();
            more.extend((0..52).map(|x| (x * 5 + i) % 52).filter(|x| !h.contains(x)).take(1 + i / 8 % 3));
            let cards: Vec<Card> = more.iter().map(|&x| d[x]).collect();
            o.count(&refm::hand_text(&more), Limit::Most(hand_limit(cards.len())), || drop(see(ev.evaluate(&cards))));
            let e = ev.evaluate(five);
            o.count(&format!("texts and comparisons of the result of {}", refm::hand_text(h)), Limit::Most(60_000), || {
                if let (Ok(a), Ok(b)) = (e, ev.evaluate([d[0], d[5], d[10], d[15], d[21]])) {
                    see((a.to_string(), a.class().to_string(), a.cmp(&b), a.is_better_than(b), a.class() < b.class(), a.class() == EvalClass::HighCard { high_rank: poker::Rank::Ace }));
                }
            });
        }
    }
}

fn small(o: &mut Out) {
    let d = refm::deck();
    let ev = Evaluator::new();
    for round in 0..2 {
        o.count("build an evaluator", Limit::Most(60_000_000), || drop(see(Evaluator::new())));
        o.count("clone an evaluator", Limit::Most(20_000_000), || drop(see(ev.clone())));
        o.count("compare evaluators", Limit::Most(60_000_000), || { see(ev == ev.clone()); });
        for n in 0..=26 {
            let cards: Vec<Card> = (0..n).map(|i| d[(i * [5, 17][round] + 1) % 52]).collect();
            o.count(&format!("evaluate {n} different cards"), Limit::Most(hand_limit(n).max(5_000)), || drop(see(ev.evaluate(&cards))));
        }
        for (i, c) in d.iter().enumerate() {
            o.count(&format!("everything about {}", refm::text(i)), Limit::Most(60_000), || {
                see((c.to_string(), c.rank_suit_string(), c.rank(), c.suit(), c.rank().to_string(), c.suit().to_string(), c.cmp(&d[7]), refm::text(i).parse::<Card>().is_ok()));
                see(Card::try_from_chars(c.rank().as_char(), c.suit().as_char()).is_ok());
            });
        }
        o.count("generate a deck", Limit::Most(60_000), || { see(deck::generate().count()); });
        o.count("the last card of a deck", Limit::Most(60_000), || { see(deck::generate().nth(51)); });
        for seed in 0..60 {
            let mut g = StdRng::seed_from_u64(seed);
            o.count(&format!("shuffle with seed {seed}"), Limit::Most(400_000), || drop(see(deck::shuffled_with(&mut g))));
        }
    }
}

fn scaling(o: &mut Out, c: usize, top: usize) {
    let d = refm::deck();
    let ev = Evaluator::new();
    let sizes: Vec<usize> = (4..=top).map(|p| 1 << p).collect();
    let cards = |n: usize| -> Vec<Card> { (0..n).map(|i| d[i * 5 % 52]).collect() };
    let words = |n: usize| -> Vec<String> { cards(n).iter().map(|c| c.rank_suit_string()).collect() };
    const PER: u64 = 2_000;
    macro_rules! series {
        ($name:expr, $n:ident, $setup:expr, $f:expr) => { series!(sizes; $name, $n, $setup, $f) };
        ($sizes:ident; $name:expr, $n:ident, $setup:expr, $f:expr) => {{
            let _ = see(($f)($setup));
            for &$n in &$sizes {
                let x = $setup;
                o.count($name, Limit::Series($n, PER), || { let _ = see(($f)(x)); });
            }
        }};
    }
    #[allow(unused_variables)]
    let n = 16usize;
    match c {
        0 => {
            for t in ["x", "A", "\u{e9}", "\u{1F0A1}", " ", "As "] {
                series!(&format!("parse {t:?} repeated"), n, t.repeat(n), |s: String| s.parse::<Card>().is_ok());
            }
        }
        1 => {
            for t in ["x", "\u{e9}", "'", "\u{1F0A1}"] {
                series!(&format!("display and clone the error for {t:?} repeated"), n, t.repeat(n).parse::<Card>(), |r: Result<Card, poker::ParseCardError>| r.map_err(|e| (e.to_string().len(), format!("{e:?}").len(), e.clone() == e)).is_ok());
            }
        }
        2 => {
            series!("parse a batch, one by one", n, words(n), |w: Vec<String>| Card::parse_to_iter(&w).filter(|c| c.is_ok()).count());
            series!("collect a batch", n, words(n), |w: Vec<String>| Card::parse_to_iter(&w).try_collect::<Vec<Card>>().map(|v| v.len()));
            series!("a batch of bad strings", n, vec!["1s"; n], |w: Vec<&str>| Card::parse_to_iter(w).filter(|c| c.is_err()).count());
            series!("skip through a batch", n, words(n), |w: Vec<String>| { let mut it = Card::parse_to_iter(&w); let mut k = 0; while it.nth(1).is_some() { k += 1 } k });
            series!("the last of a batch", n, words(n), |w: Vec<String>| Card::parse_to_iter(&w).last());
            series!("size hints of a batch", n, words(n), |w: Vec<String>| { let mut it = Card::parse_to_iter(&w); let mut k = 0; while it.size_hint().0 + k > 0 && it.next().is_some() { k += 1 } k });
        }
        3 => {
            for (a, t) in [("spaces", " "), ("wide spaces", " \u{2003}\n"), ("many spaces", "          ")] {
                series!(&format!("cards! of a text with {a}"), n, words(n).join(t), |s: String| cards!(s).filter(|c| c.is_ok()).count());
            }
            series!("cards! of white space", n, " \t\u{2003}".repeat(n), |s: String| cards!(s).count());
            series!("cards! of one long word", n, "As".repeat(n), |s: String| cards!(s).count());
        }
        4 => {
            series!("join slices", n, cards(n), |v: Vec<Card>| box_cards!(v, v, [v[0]]).len());
            series!("compare cards, each with the next", n, cards(n), |v: Vec<Card>| v.windows(2).filter(|w| w[0] < w[1] || w[0] == w[1] || w[0].rank() > w[1].rank()).count());
            series!("sets of cards", n, cards(n), |v: Vec<Card>| v.into_iter().collect::<std::collections::HashSet<_>>().len());
            series!("display cards", n, cards(n), |v: Vec<Card>| v.iter().map(|c| c.to_string().len()).sum::<usize>());
        }
        5 => {
            // more cards than a deck has are never evaluated; some hundreds are enough
            let few: Vec<usize> = sizes.iter().copied().filter(|&n| n <= 512).collect();
            let ev = &ev;
            let cards = |n: usize| -> Vec<Card> { (0..n).map(|i| d[i / 2 * 5 % 52]).collect() };
            series!(few; "evaluate a list with all repeated", n, cards(n), |v: Vec<Card>| ev.evaluate(&v).is_ok());
            series!(few; "evaluate a list of one card", n, vec![d[9]; n], |v: Vec<Card>| ev.evaluate(&v).is_ok());
            series!(few; "display and clone the error of a long list", n, ev.evaluate(cards(n)), |r: Result<poker::Eval, poker::EvalError>| r.map_err(|e| (e.to_string().len(), e.clone() == e)).is_ok());
            series!(few; "display the error of one card repeated", n, ev.evaluate(vec![d[9]; n]), |r: Result<poker::Eval, poker::EvalError>| r.map_err(|e| e.to_string().len()).is_ok());
        }
        6 => {
            series!("sort cards", n, cards(n), |mut v: Vec<Card>| { v.sort(); v.len() });
            let es: Vec<_> = (0..256).filter_map(|k| ev.evaluate(ops::pick::<5>(&d, k)).ok()).collect();
            series!("compare results, each with the next", n, (0..n).map(|i| es[i % es.len()]).collect::<Vec<_>>(), |v: Vec<poker::Eval>| v.windows(2).filter(|w| w[0] < w[1] || w[0].class() < w[1].class()).count());
            series!("the best of results", n, (0..n).map(|i| es[i % es.len()]).collect::<Vec<_>>(), |v: Vec<poker::Eval>| v.into_iter().max());
        }
        _ => series!("shuffle with a generator that gives the largest number again and again", n, Refused(n as u64, StdRng::seed_from_u64(1)), |mut g: Refused| deck::shuffled_with(&mut g).len()),
    }
}

/// Uses that are counted after others.
pub fn plain() -> Vec<usize> { (5..32).chain([0, 3]).collect() }

fn history(o: &mut Out, j: usize, long: u64) {
    let mut counts = |long: u64| {
        let u = &mut User::new();
        for i in plain() {
            op(i, u, 1_000_003);
        }
        for k in 0..long {
            op(j, u, k * 7 + 1);
        }
        for i in plain() {
            let what = if long == 0 { NAMES[i].to_string() } else { format!("{}, after {long} times: {}", NAMES[i], NAMES[j]) };
            let l = if long == 0 { Limit::Most(500_000_000) } else { Limit::Like(format!("{}", o.0 - plain().len())) };
            o.count(&what, l, || op(i, u, 1_000_004));
        }
    };
    counts(0);
    counts(long);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    let mut o = Out(0, std::env::var_os("VERIF_UNCOUNTED").is_some());
    println!("start");
    // everything once before, so that what is made once is made
    let u = &mut User::new();
    for i in 0..N - 2 {
        op(i, u, 12_345);
    }
    match a[1].as_str() {
        "hands" => hands(&mut o, num(2), num(3)),
        "small" => small(&mut o),
        "scaling" => scaling(&mut o, num(2), num(3)),
        "history" => history(&mut o, plain()[num(2)], num(3) as u64),
        _ => std::process::exit(3),
    }
    println!("done\t{}", o.0);
}
