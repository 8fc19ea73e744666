//! C25: memory.

use std::hint::black_box as see;

use mc::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::Env,
    refm,
};
use poker::{box_cards, cards, deck, Card, Evaluator};
use rand::{Error, RngCore};

use crate::{
    kid::{kid, live, Kid},
    ops::{self, op, User, HEAVY, N, NAMES},
};

fn told(seq: &[usize]) -> String { seq.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(", then ") }

/// Memory in use after 4, 8, 16, ... runs, if it is more each time.
fn growth(mut f: impl FnMut(u64)) -> Option<Vec<i64>> {
    let mut n = 0;
    let mut until = |m: u64| {
        while n < m {
            f(n);
            n += 1;
        }
        live()
    };
    let mut seen = vec![until(4), until(8)];
    let mut m = 8;
    while seen[seen.len() - 1] > seen[seen.len() - 2] {
        if m == 2048 {
            return Some(seen);
        }
        m *= 2;
        seen.push(until(m));
    }
    None
}

fn repeated(k: &Kid, u: &mut User, seq: &[usize]) {
    let r = growth(|_| {
        for (&i, x) in seq.iter().zip([5, 2, 3, 4]) {
            op(i, u, x);
        }
    });
    k.step(8 * seq.len() as u64);
    k.trace();
    k.state();
    if let Some(g) = r {
        fail(format!("with the same inputs again and again, memory in use after 4, 8, 16, ... 2048 times grows every time ({} then {} bytes) while doing: {}", g[0], g[g.len() - 1], told(seq)));
    }
}

fn digits(n: u64) -> String { told(&[(n & 255) as usize, (n >> 8 & 255) as usize, (n >> 16 & 255) as usize].into_iter().filter(|&i| i > 0).map(|i| i - 1).collect::<Vec<_>>()) }
fn note(seq: &[usize]) -> u64 { seq.iter().rev().fold(0, |n, &i| n << 8 | (i as u64 + 1)) }

// ---------------------------------------------------------------- wide inputs

/// Every item four times over; what grows then is searched for the item.
fn passes(k: &Kid, n: u64, f: &mut dyn FnMut(u64), name: &dyn Fn(u64) -> String) {
    let mut one = |k: &Kid| {
        for x in 0..n {
            k.note(x);
            f(x);
        }
        k.step(n);
        k.trace();
        live()
    };
    one(k);
    let g: Vec<i64> = (0..3).map(|_| one(k)).collect();
    for _ in 0..n {
        k.state();
    }
    if g[0] < g[1] && g[1] < g[2] {
        for x in 0..n {
            if let Some(g) = growth(|_| f(x)) {
                fail(format!("memory in use grows every time ({} bytes over 2048 times) while doing the same again: {}", g[g.len() - 1] - g[0], name(x)));
            }
        }
        // no item alone: only over the whole
        let more: Vec<i64> = (0..6).map(|_| { for x in 0..n { f(x) } live() }).collect();
        if more.windows(2).all(|w| w[0] < w[1]) {
            fail(format!("memory in use grows with every pass over the same {n} inputs ({} bytes each) while doing: {} and the others", more[1] - more[0], name(0)));
        }
    }
}

const LETTERS: [char; 26] = ['A', 's', '2', 'c', 'T', 'K', 'd', 'h', 'x', 'a', 'S', '1', '0', ' ', '\n', '\'', '"', '\\', '{', '}', '\u{e9}', '\u{2660}', '\u{1F0A1}', '\0', '\u{301}', '\u{10FFFF}'];

fn string(mut x: u64) -> String {
    let mut s = String::new();
    while x > 0 {
        x -= 1;
        s.push(LETTERS[(x % 26) as usize]);
        x /= 26;
    }
    s
}

fn parse(s: &str) {
    match s.parse::<Card>() {
        Ok(c) => see(c.to_string().len()),
        Err(e) => see(e.clone().to_string().len()),
    };
}

fn wide(env: &Env, c: usize, k: &Kid) {
    let ev = Evaluator::new();
    let deck = refm::deck();
    match c {
        0..=47 => {
            // all five-card hands with this smallest card
            let mut hands = vec![];
            mc::env::subsets(5, c + 1, &mut [c, 0, 0, 0, 0], 1, &mut |ids| hands.push([ids[0] as u8, ids[1] as u8, ids[2] as u8, ids[3] as u8, ids[4] as u8]));
            let cards = |x: u64| hands[x as usize].map(|i| deck[i as usize]);
            passes(k, hands.len() as u64, &mut |x| { see(ev.evaluate(cards(x)).map(|e| e.to_string().len()).is_ok()); }, &|x| format!("evaluate {:?}", cards(x).map(|c| c.rank_suit_string())));
        }
        48..=55 => {
            // strings
            let n = 1 + 26 + 26 * 26 + 26 * 26 * 26 + if env.thorough() { 26 * 26 * 26 * 26 } else { 0 };
            let (a, b) = (n * (c as u64 - 48) / 8, n * (c as u64 - 47) / 8);
            passes(k, b - a, &mut |x| parse(&string(a + x)), &|x| format!("parse {:?} and display the outcome", string(a + x)));
        }
        56..=71 => {
            // every character as rank, suit and alone
            let (a, b) = (0x110000 * (c as u64 - 56) / 16, 0x110000 * (c as u64 - 55) / 16);
            passes(k, b - a, &mut |x| if let Some(ch) = char::from_u32((a + x) as u32) {
                for s in [format!("{ch}s"), format!("A{ch}"), ch.to_string()] {
                    parse(&s);
                }
                see((Card::try_from_chars(ch, ch).map_err(|e| e.to_string()).is_ok(), poker::Rank::try_from(ch).is_ok(), poker::Suit::try_from(ch).is_ok()));
            }, &|x| format!("parse strings with the character U+{:04X}", a + x));
        }
        72 => {
            // lists of every length, no duplicate or one, each place
            let mut lists: Vec<Vec<Card>> = vec![];
            for n in 0..=20usize {
                let l: Vec<Card> = (0..n).map(|i| deck[i * 5 % 52]).collect();
                lists.push(l.clone());
                for i in 0..n {
                    for j in 0..i {
                        let mut l = l.clone();
                        l[i] = l[j];
                        lists.push(l);
                    }
                }
            }
            passes(k, lists.len() as u64, &mut |x| { see(ev.evaluate(&lists[x as usize]).map_err(|e| e.clone().to_string()).map(|e| e.to_string()).is_ok()); },
                &|x| format!("evaluate {:?}", lists[x as usize].iter().map(|c| c.rank_suit_string()).collect::<Vec<_>>()));
        }
        73 => {
            // strengths
            let reps = env.reps();
            let n = reps.len() as u64;
            passes(k, n * n / 16, &mut |x| {
                let (a, b) = (reps[(x % n) as usize], reps[(x * 31 / n * 13 % n) as usize]);
                see((a < b, a.class() < b.class(), a.is_better_than(b), a.max(b)));
                if x < n {
                    see(format!("{a}{a:?}{}{:?}", a.class(), a.class()));
                }
            }, &|x| format!("compare results, {x}"));
        }
        74 => passes(k, 20_000, &mut |x| drop(see(deck::shuffled_with(&mut <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(x)))), &|x| format!("shuffle with seed {x}")),
        75 => {
            let mut ws: Vec<usize> = vec![];
            for i in 0..52 * 52 {
                ws.push(i);
            }
            passes(k, ws.len() as u64, &mut |x| {
                let (a, b) = (deck[x as usize / 52], deck[x as usize % 52]);
                see((a < b, a == b, a.max(b), a.rank().cmp(&b.rank()), a.suit() == b.suit()));
                see(format!("{a}{b:?}{:?}{:?}{}{}", a.rank(), b.suit(), a.rank(), b.suit()));
                see(box_cards!([a], [b], [a, b]).len());
                see(cards!(a.rank_suit_string(), b.rank_suit_string()).try_collect::<Vec<_>>().is_ok());
            }, &|x| format!("compare and display the cards {} and {}", refm::text(x as usize / 52), refm::text(x as usize % 52)));
        }
        76 => {
            let s = ops::sizes();
            passes(k, s.len() as u64, &mut |x| ops::sized(s[x as usize], &ev, &deck), &|x| format!("evaluate, parse, join and sort {} cards or characters", s[x as usize]))
        }
        _ => {
            // six- and seven-card hands, spread over all of them
            let n: u64 = if env.thorough() { 4_000_000 } else { 100_000 };
            let a = n * (c as u64 - 77);
            passes(k, n, &mut |x| {
                see(ev.evaluate(ops::pick::<6>(&deck, a + x)).is_ok());
                see(ev.evaluate(ops::pick::<7>(&deck, a + x)).is_ok());
            }, &|x| format!("evaluate hand {} of six and seven cards", a + x));
        }
    }
}

// ---------------------------------------------------------------- small stacks

struct Stubborn(u64, u64);
impl RngCore for Stubborn {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        // the largest values are drawn again by every unbiased range draw
        if self.0 > 0 {
            self.0 -= 1;
            return u64::MAX;
        }
        self.1 += 1;
        mc::env::splitmix(self.1)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

const LARGE: [&str; 12] = [
    "evaluate a list that long", "display the error of a list that long", "parse a string that long", "display the error of a string that long",
    "parse a batch that long", "collect a bad batch that long", "cards! of a text that long", "box_cards! of slices that long",
    "a generator that is refused that often", "sort that many cards", "everything else", "drop a half-parsed batch that long",
];

fn large(i: usize, n: usize, ev: &Evaluator, deck: &[Card; 52]) {
    match i {
        0 => drop(see(ev.evaluate(deck.iter().copied().cycle().take(n).collect::<Vec<_>>()))),
        1 => {
            see(ev.evaluate(vec![deck[7]; n]).map_err(|e| (e.to_string().len(), format!("{e:?}").len(), e.clone() == e)).is_ok());
        }
        2 => {
            for s in ["A", "\u{e9}", "\u{1F0A1}", " "] {
                see(s.repeat(n).parse::<Card>().is_ok());
            }
        }
        3 => {
            see("\u{2660}".repeat(n).parse::<Card>().map_err(|e| (e.to_string().len(), format!("{e:?}").len(), e.clone() == e)).is_ok());
        }
        4 => {
            see(Card::parse_to_iter(vec!["As"; n]).filter(|c| c.is_ok()).count());
            see(Card::parse_to_iter(vec!["As"; n]).try_collect::<Vec<Card>>().map(|v| v.len()).is_ok());
        }
        5 => {
            see(Card::parse_to_iter(vec!["x"; n]).filter(|c| c.is_ok()).count());
            let mut v = vec!["As"; n];
            v[n - 1] = "x";
            see(Card::parse_to_iter(v).try_collect::<Vec<Card>>().is_ok());
        }
        6 => {
            let s = "As \u{2003}".repeat(n);
            see(cards!(s).count());
            let s = " \t".repeat(n);
            see(cards!(s).count());
        }
        7 => {
            let v = vec![deck[3]; n];
            see(box_cards!(v, v, v).len());
        }
        8 => drop(see(deck::shuffled_with(&mut Stubborn(n as u64, 0)))),
        9 => {
            let mut v: Vec<Card> = (0..n).map(|i| deck[(mc::env::splitmix(i as u64) % 52) as usize]).collect();
            v.sort();
            v.sort_unstable();
            see(v.iter().max());
        }
        10 => {
            let u = &mut User::new();
            for i in 0..N {
                op(i, u, n as u64);
            }
        }
        _ => {
            let mut it = Card::parse_to_iter(vec!["As"; n]);
            see(it.nth(n / 2));
            drop(it);
        }
    }
}

const STACK: usize = 256 << 10;

pub fn c25<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let depth = if env.thorough() { 4 } else { 3 };
    let top = if env.thorough() { 21 } else { 17 };
    let _ = refm::deck();
    let in_kid = |ctx: &mut Ctx, f: &dyn Fn(&'static Kid)| kid(ctx, digits, f);
    vec![
        family("same-again", format!("every sequence of up to {depth} of {N} uses of the crate, with a long-lived evaluator, done eight times over (more where memory is still growing)"), N * N, move |c, ctx| in_kid(ctx, &|k| {
            let u = &mut User::new();
            let (a, b) = (c / N, c % N);
            let mut run = |seq: &[usize]| {
                k.note(note(seq));
                repeated(k, u, seq);
            };
            if b == 0 {
                run(&[a]);
            }
            run(&[a, b]);
            for x in 0..N {
                run(&[a, b, x]);
                if depth > 3 && !HEAVY.contains(&a) && !HEAVY.contains(&b) && !HEAVY.contains(&x) {
                    for y in 0..N {
                        if !HEAVY.contains(&y) {
                            run(&[a, b, x, y]);
                        }
                    }
                }
            }
        })).describe(digits),
        family("ever-different", format!("each of {N} uses alone with 2^{top} different inputs (2^12 where it builds evaluators or starts threads), and each ordered pair of uses alternating with 2^12 different inputs: memory in use must stop growing"), N * N + N, move |c, ctx| in_kid(ctx, &|k| {
            let (seq, top) = if c < N { (vec![c], if HEAVY.contains(&c) { 12 } else if c == 8 { 14 } else { top }) } else { (vec![(c - N) / N, (c - N) % N], 12) };
            if seq.len() == 2 && (seq.iter().any(|i| HEAVY.contains(i)) || seq.contains(&8)) {
                return;
            }
            let u = &mut User::new();
            k.note(note(&seq));
            let mut n = 0u64;
            let mut seen = vec![];
            for p in 3..=top {
                while n < 1 << p {
                    for &i in &seq {
                        op(i, u, n);
                    }
                    n += 1;
                    if n % 256 == 0 {
                        k.note(note(&seq));
                    }
                }
                seen.push(live());
            }
            k.step(n * seq.len() as u64);
            k.trace();
            k.state();
            let last = &seen[seen.len() - 6..];
            ensure!(!last.windows(2).all(|w| w[0] < w[1]), "with ever different inputs, memory in use keeps growing: {last:?} bytes after each of the last doublings up to {n} times, while doing: {}", told(&seq));
        })).describe(digits),
        family("every-input-again", "all five-card hands, all strings up to 3 characters over 26, every Unicode character as rank, suit and alone, all lists up to 20 cards with one duplicate pair, all strengths, all pairs of cards, 20,000 seeds, everything of sizes 0-300 and around powers of two to 2^16, spread six- and seven-card hands: four passes over each, with a long-lived evaluator", 81, move |c, ctx| {
            if c == 73 {
                let _ = env.reps();
            }
            kid(ctx, |n| format!("working on input {n} of the part"), |k| wide(env, c, k))
        }).describe(|n| format!("working on input {} of the part", n & 0xFFFF_FFFF)),
        family("new-threads", format!("every sequence of up to 2 of {N} uses, each time on a new thread"), N, move |a, ctx| in_kid(ctx, &|k| {
            let u = &mut User::new();
            for b in 0..=N {
                let seq = if b == N { vec![a] } else { vec![a, b] };
                k.note(note(&seq));
                let r = growth(|_| std::thread::scope(|s| {
                    let u = &mut *u;
                    let seq = &seq;
                    s.spawn(move || for &i in seq { op(i, u, 1) });
                }));
                k.step(8);
                k.trace();
                k.state();
                if let Some(g) = r {
                    fail(format!("memory in use grows every time ({} then {} bytes) while doing on ever new threads: {}", g[0], g[g.len() - 1], told(&seq)));
                }
            }
        })).describe(digits),
        family("small-stack", format!("{} uses with inputs of every size 1, 2, 4, ... 2^20, on a thread with a stack of {} KiB", LARGE.len(), STACK >> 10), LARGE.len(), move |i, ctx| {
            kid(ctx, |n| format!("on a stack of 256 KiB, size {}: {}", 1u64 << (n >> 8 & 63), LARGE[(n & 15) as usize]), |k| {
                let ev = Evaluator::new();
                let deck = refm::deck();
                let r = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                    for p in 0..=20 {
                        k.note(i as u64 | p << 8);
                        large(i, 1 << p, &ev, &deck);
                        k.step(1);
                        k.trace();
                        k.state();
                    }
                }).unwrap().join();
                if let Err(p) = r {
                    std::panic::resume_unwind(p)
                }
            })
        }).describe(|n| format!("on a small stack: {}", LARGE[(n & 15) as usize % LARGE.len()])),
    ]
}
