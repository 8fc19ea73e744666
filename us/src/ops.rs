//! The uses of the crate whose sequences are enumerated.

use std::{
    collections::{BTreeSet, HashSet},
    fmt::Write as _,
    hint::black_box as see,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
};

use mc::{engine::fail, refm};
use poker::{box_cards, card, cards, deck, Card, Eval, Evaluator, Rank, Suit};
use rand::{rngs::StdRng, Error, RngCore, SeedableRng};

/// What a program that uses the crate holds on to.
pub struct User {
    pub ev: Evaluator,
    pub kept: Option<Evaluator>,
    deck: [Card; 52],
}

impl User {
    pub fn new() -> Self { User { ev: Evaluator::new(), kept: None, deck: refm::deck() } }
}

pub const NAMES: [&str; 34] = [
    "build an evaluator", "default evaluator", "build and keep an evaluator", "clone the evaluator", "replace the evaluator by its clone",
    "evaluate 5 cards", "evaluate 6 cards", "evaluate 7 cards", "evaluate 12 cards", "evaluate duplicates",
    "evaluate too few cards", "parse a good string", "parse a bad string", "try_from_chars", "parse a batch",
    "drop a half-parsed batch", "collect a batch", "generate a deck", "drop a half-generated deck", "shuffle with a generator",
    "shuffle", "result texts", "class texts", "card texts", "sort and compare",
    "card macros", "sets of cards", "a container panics", "a string panics", "a generator panics",
    "a writer refuses", "calls within calls", "everything on a new thread", "a thread that panics",
];
pub const N: usize = NAMES.len();

/// Uses that take much longer than the others.
pub const HEAVY: [usize; 7] = [0, 1, 2, 3, 4, 32, 33];

struct Boom;
fn boom() -> ! { resume_unwind(Box::new(Boom)) }
fn cut_short(what: &str, f: impl FnOnce()) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => fail(format!("{what}: the caller's panic was swallowed")),
        Err(p) if !p.is::<Boom>() => resume_unwind(p),
        Err(_) => {}
    }
}

/// Cards that do something when they are asked for.
struct Within<'a>(Vec<Card>, &'a dyn Fn());
impl AsRef<[Card]> for Within<'_> {
    fn as_ref(&self) -> &[Card] {
        (self.1)();
        &self.0
    }
}

struct Bad;
impl AsRef<[Card]> for Bad {
    fn as_ref(&self) -> &[Card] { boom() }
}
impl AsRef<str> for Bad {
    fn as_ref(&self) -> &str { boom() }
}
struct BadGen(StdRng, u32);
impl BadGen {
    fn tick(&mut self) {
        if self.1 == 0 {
            boom()
        }
        self.1 -= 1;
    }
}
impl RngCore for BadGen {
    fn next_u32(&mut self) -> u32 {
        self.tick();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.tick();
        self.0.fill_bytes(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.tick();
        self.0.try_fill_bytes(b)
    }
}

struct Room(usize);
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// The k-th of many different sets of n cards, smallest index first.
pub fn pick<const N: usize>(deck: &[Card; 52], k: u64) -> [Card; N] {
    let mut total = 1u64;
    for i in 0..N as u64 {
        total = total * (52 - i) / (i + 1);
    }
    // the combinatorial number system, walked with a step coprime to the total
    let mut r = (k as u128 * 1_000_000_007 % total as u128) as u64;
    let mut out = [deck[0]; N];
    let mut c = 52u64;
    for i in (1..=N as u64).rev() {
        let mut b;
        loop {
            c -= 1;
            b = 1u64;
            for j in 0..i {
                if c < i {
                    b = 0;
                    break;
                }
                b = b * (c - j) / (j + 1);
            }
            if c < i || b <= r {
                break;
            }
        }
        r -= b.min(r);
        out[i as usize - 1] = deck[c as usize];
    }
    out
}

fn text(e: impl std::fmt::Display + std::fmt::Debug) -> usize { see(e.to_string().len()) + see(format!("{e:?}").len()) }

/// Use number `i` with input number `k` (equal numbers, equal inputs).
pub fn op(i: usize, u: &mut User, k: u64) {
    match i {
        0 => drop(see(Evaluator::new())),
        1 => drop(see(Evaluator::default())),
        2 => u.kept = Some(Evaluator::new()),
        3 => drop(see(u.ev.clone())),
        4 => u.ev = u.ev.clone(),
        5 => drop(see(u.ev.evaluate(pick::<5>(&u.deck, k)))),
        6 => drop(see(u.kept.as_ref().unwrap_or(&u.ev).evaluate(pick::<6>(&u.deck, k)))),
        7 => drop(see(u.ev.evaluate(pick::<7>(&u.deck, k).to_vec()))),
        8 => drop(see(u.ev.evaluate(pick::<12>(&u.deck, k)))),
        9 => {
            let mut v = pick::<6>(&u.deck, k);
            v[(k % 5) as usize + 1] = v[(k % 3) as usize % ((k % 5) as usize + 1)];
            if let Err(e) = u.ev.evaluate(v) {
                see(text(&e));
                let b: Box<dyn std::error::Error> = Box::new(e.clone());
                see(b.source().is_some());
                see(b.to_string());
            }
        }
        10 => {
            let v = pick::<4>(&u.deck, k);
            if let Err(e) = u.ev.evaluate(&v[..(k % 5) as usize]) {
                see(text(&e));
                see(e.clone() == e);
            }
        }
        11 => drop(see(refm::text((k % 52) as usize).parse::<Card>())),
        12 => {
            let s = match k % 6 {
                0 => format!("{k}"),
                1 => format!("{}x", (b'a' + (k / 6 % 26) as u8) as char),
                2 => format!("A{}", char::from_u32((k / 6 * 7919 % 0xD000) as u32).unwrap_or('z')),
                3 => format!("{}s", char::from_u32(0x10000 + (k / 6 % 0xF0000) as u32).unwrap_or('z')),
                4 => String::new(),
                _ => format!("{k} and more \u{2660}"),
            };
            if let Err(e) = s.parse::<Card>() {
                see(text(&e));
                let b: Box<dyn std::error::Error> = Box::new(e.clone());
                see(b.source().is_some());
                see(b.to_string());
            }
        }
        13 => {
            let c = char::from_u32((k * 31 % 0xD000) as u32).unwrap_or('z');
            for (r, s) in [(c, 's'), ('A', c), ('A', 's'), (c, c)] {
                if let Err(e) = Card::try_from_chars(r, s) {
                    see(text(&e));
                }
            }
            see(Rank::try_from(c).is_ok());
            see(Suit::try_from(c).is_ok());
        }
        14 => {
            let other = format!("{k}");
            for c in Card::parse_to_iter(["As", &other, "Kd", "", "2c"]) {
                match c {
                    Ok(c) => see(c.rank_suit_string().len()),
                    Err(e) => text(e),
                };
            }
        }
        15 => {
            let mut it = Card::parse_to_iter(["As", "x", "Kd", "Qd"]);
            see(it.next()).map(|c| c.is_ok());
            see(it.next()).map(|c| c.is_ok());
        }
        16 => {
            let s = format!("As Kd {} 3c", if k % 2 == 0 { "2c".into() } else { format!("{k}") });
            see(cards!(s).try_collect::<Vec<Card>>().is_ok());
            see(Card::parse_to_iter(s.split(' ')).try_collect::<HashSet<Card>>().map_err(|e| text(e)).is_ok());
        }
        17 => drop(see(deck::generate().collect::<Vec<Card>>())),
        18 => {
            let mut d = deck::generate();
            see(d.nth((k % 52) as usize));
        }
        19 => drop(see(deck::shuffled_with(&mut StdRng::seed_from_u64(k)))),
        20 => drop(see(deck::shuffled())),
        21 => {
            if let Ok(e) = u.ev.evaluate(pick::<5>(&u.deck, k)) {
                see(text(e));
                see((e.is_better_than(Eval::WORST), e.is_worse_than(Eval::BEST), e.is_equal_to(e), e.is_royal_flush(), e.is_pair()));
                see((e.max(Eval::WORST), e.min(Eval::BEST), e.cmp(&Eval::BEST), Some(e) > Some(Eval::WORST)));
            }
        }
        22 => {
            if let (Ok(a), Ok(b)) = (u.ev.evaluate(pick::<5>(&u.deck, k)), u.ev.evaluate(pick::<7>(&u.deck, k))) {
                see(text(a.class()) + text(b.class()));
                see((a.class() < b.class(), a.class() == b.class(), a.class().max(b.class())));
                see([a.class(), b.class()].iter().copied().collect::<BTreeSet<_>>().len());
            }
        }
        23 => {
            let c = u.deck[(k % 52) as usize];
            see(text(c) + text(c.rank()) + text(c.suit()));
            see(format!("{c:>10}|{c:#?}|{:<3}|{:^3}", c.rank(), c.suit()));
            see((c.rank_suit_string(), c.rank().as_char(), c.suit().as_char(), c.suit().as_pretty_char(), c.unique_integer()));
        }
        24 => {
            let mut v = pick::<12>(&u.deck, k);
            v.sort();
            v.sort_unstable_by(|a, b| b.cmp(a));
            v.sort_by_key(|c| (c.rank(), c.suit().as_char()));
            see(v.iter().max());
            see(v.binary_search(&v[0]).is_ok());
        }
        25 => {
            let a = cards!(Ace of Spades, King of Hearts);
            let v = pick::<4>(&u.deck, k);
            see(box_cards!(a, v, [card!(Two, Clubs)]).len());
            see(card!("As").is_ok());
            see(card!(refm::text((k % 52) as usize)).is_ok());
            see(cards!("As", "Kx", "2c").count());
        }
        26 => {
            let v = pick::<12>(&u.deck, k);
            see(v.iter().copied().collect::<HashSet<Card>>().len());
            see(v.iter().copied().collect::<BTreeSet<Card>>().len());
            see(v.iter().map(|c| c.rank()).collect::<HashSet<_>>().len());
            see(v.iter().map(|c| c.suit()).collect::<HashSet<_>>().len());
        }
        27 => cut_short("evaluate", || drop(see(u.ev.evaluate(Bad)))),
        28 => cut_short("parse_to_iter", || {
            see(Card::parse_to_iter(["As", "x"].map(Some).into_iter().chain([None]).map(|s| s.map_or(Word(None), |s| Word(Some(s))))).count());
        }),
        29 => cut_short("shuffled_with", || drop(see(deck::shuffled_with(&mut BadGen(StdRng::seed_from_u64(k), (k % 40) as u32))))),
        30 => {
            let room = (k % 40) as usize;
            see(write!(Room(room), "{}", u.deck[(k % 52) as usize]).is_ok());
            if let Ok(e) = u.ev.evaluate(pick::<5>(&u.deck, k)) {
                see(write!(Room(room), "{e}").is_ok());
            }
            let mut v = pick::<5>(&u.deck, k);
            v[1] = v[0];
            if let Err(e) = u.ev.evaluate(v) {
                see(write!(Room(room), "{e}").is_ok());
            }
            if let Err(e) = "1s".parse::<Card>() {
                see(write!(Room(room), "{e}").is_ok());
            }
        }
        31 => {
            let ev = &u.ev;
            let outer = Within(pick::<7>(&u.deck, k).to_vec(), &|| {
                see(ev.evaluate(pick::<8>(&u.deck, k + 1)).is_ok());
                see(ev.evaluate(Within(vec![u.deck[0]; 2], &|| drop(see(ev.evaluate(pick::<5>(&u.deck, k)))))).map_err(text).is_ok());
                see("1s".parse::<Card>().map_err(text).is_ok());
                see(deck::shuffled_with(&mut StdRng::seed_from_u64(k)).len());
                cut_short("evaluate", || drop(see(ev.evaluate(Bad))));
            });
            see(ev.evaluate(&outer).map(text).is_ok());
        }
        33 => {
            let ev = &u.ev;
            std::thread::scope(|s| {
                let t = s.spawn(|| {
                    see(ev.evaluate(pick::<7>(&u.deck, k)).is_ok());
                    drop(see(ev.evaluate(Bad)));
                });
                match t.join() {
                    Err(p) if p.is::<Boom>() => {}
                    _ => fail("a panic on another thread was lost".into()),
                }
            });
        }
        _ => {
            let ev = &u.ev;
            let d = &u.deck;
            std::thread::scope(|s| {
                s.spawn(|| {
                    see(ev.evaluate(pick::<7>(d, k)).map(|e| text(e)).is_ok());
                    see(ev.evaluate([d[0], d[0]]).map_err(text).is_ok());
                    see("1s".parse::<Card>().map_err(text).is_ok());
                    see(deck::shuffled().len());
                    see(cards!("As Kd 2c").try_collect::<Vec<Card>>().is_ok());
                    see(deck::generate().map(text).sum::<usize>());
                });
            });
        }
    }
}

struct Word(Option<&'static str>);
impl AsRef<str> for Word {
    fn as_ref(&self) -> &str { self.0.unwrap_or_else(|| boom()) }
}

/// Sizes of inputs: all small ones, then powers of two.
pub fn sizes() -> Vec<usize> { (0..=300).chain((9..=16).flat_map(|p| [(1 << p) - 1, 1 << p])).collect() }

/// Everything that takes inputs of a size, with size n.
pub fn sized(n: usize, ev: &Evaluator, deck: &[Card; 52]) {
    let cards: Vec<Card> = (0..n).map(|i| deck[i * 5 % 52]).collect();
    match ev.evaluate(&cards) {
        Ok(e) => see(text(e)),
        Err(e) => see(text(e)),
    };
    if n > 1 {
        let mut twice = cards.clone();
        twice[n - 1] = twice[0];
        see(ev.evaluate(twice).map_err(|e| text(e.clone())).is_ok());
    }
    for s in ["x", "A", "\u{e9}", "\u{1F0A1}", " ", "As "] {
        see(s.repeat(n).parse::<Card>().map_err(|e| text(e.clone())).is_ok());
    }
    let mut words: Vec<String> = cards.iter().map(|c| c.rank_suit_string()).collect();
    see(Card::parse_to_iter(&words).count());
    see(cards!(words.join(" ")).try_collect::<Vec<Card>>().is_ok());
    words.push("T1".into());
    see(Card::parse_to_iter(&words).try_collect::<Vec<Card>>().map_err(text).is_ok());
    see(Card::parse_to_iter(&words).nth(n / 2).is_some());
    see(box_cards!(cards, cards, [deck[0]]).len());
    let mut v = cards;
    v.sort();
    see(v.iter().copied().collect::<HashSet<Card>>().len());
}
