//! What the crate gives for each item of several spaces, the same program for
//! every kind of machine. Nothing here may depend on the machine.

use std::{cell::RefCell, fmt::Write};

use poker::{cards, deck, Card, Eval, EvalClass, EvalError, Evaluator, Rank, Suit};
use rand::{rngs::StdRng, SeedableRng};

#[cfg(target_family = "wasm")]
fn bytes(b: &mut [u8]) -> Result<(), getrandom::Error> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
    for x in b {
        let n = N.fetch_add(0x9E37_79B9, std::sync::atomic::Ordering::Relaxed);
        *x = (n >> 24) as u8;
    }
    Ok(())
}
#[cfg(target_family = "wasm")]
getrandom::register_custom_getrandom!(bytes);

pub trait Sink {
    fn num(&mut self, n: u64);
    fn text(&mut self, s: &str);
}

pub struct Digest(pub u64);
impl Sink for Digest {
    fn num(&mut self, n: u64) { self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
    fn text(&mut self, s: &str) {
        self.num(s.len() as u64);
        for c in s.as_bytes().chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.num(u64::from_le_bytes(b));
        }
    }
}
impl Sink for String {
    fn num(&mut self, n: u64) { let _ = write!(self, "{n} "); }
    fn text(&mut self, s: &str) { let _ = write!(self, "{s:?} "); }
}

struct Place {
    ev: Evaluator,
    /// by rank, then suit, as in the order of generation below
    deck: Vec<Card>,
    /// a hand of every strength
    hands: Vec<[u8; 5]>,
    sorted: Vec<Eval>,
}

thread_local!(static PLACE: RefCell<Option<&'static Place>> = const { RefCell::new(None) });

fn place() -> &'static Place {
    PLACE.with(|p| *p.borrow_mut().get_or_insert_with(|| Box::leak(Box::new(Place::new()))))
}

impl Place {
    fn new() -> Self {
        let ev = Evaluator::new();
        let mut deck = vec![];
        for r in RANKS {
            for s in SUITS {
                deck.push(Card::new(r, s));
            }
        }
        let mut hands = vec![];
        for n in 0..13u32.pow(5) {
            let mut r = [0; 5];
            let mut m = n;
            for x in &mut r {
                *x = (m % 13) as u8;
                m /= 13;
            }
            if r.windows(2).any(|w| w[0] > w[1]) || r[0] == r[4] {
                continue;
            }
            // equal ranks in different suits, never all of one suit
            let mut h = [0; 5];
            for i in 0..5 {
                let before = r[..i].iter().filter(|&&x| x == r[i]).count() as u8;
                h[i] = r[i] * 4 + if before == 0 && i == 4 { 1 } else { before };
            }
            hands.push(h);
            if r.windows(2).all(|w| w[0] < w[1]) {
                hands.push(r.map(|x| x * 4 + 2));
            }
        }
        let mut sorted: Vec<Eval> = hands.iter().filter_map(|h| ev.evaluate(h.map(|i| deck[i as usize])).ok()).collect();
        sorted.sort();
        sorted.dedup();
        Place { ev, deck, hands, sorted }
    }
}

const RANKS: [Rank; 13] = [Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace];
const SUITS: [Suit; 4] = [Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds];

fn rank(r: Rank) -> u64 { RANKS.iter().position(|x| *x == r).map_or(98, |i| i as u64) }
fn suit(s: Suit) -> u64 { SUITS.iter().position(|x| *x == s).map_or(98, |i| i as u64) }

fn class(c: EvalClass) -> u64 {
    let (k, a, b) = match c {
        EvalClass::HighCard { high_rank } => (0, high_rank, None),
        EvalClass::Pair { pair } => (1, pair, None),
        EvalClass::TwoPair { first_pair, second_pair } => (2, first_pair, Some(second_pair)),
        EvalClass::ThreeOfAKind { trips } => (3, trips, None),
        EvalClass::Straight { high_rank } => (4, high_rank, None),
        EvalClass::Flush { high_rank } => (5, high_rank, None),
        EvalClass::FullHouse { trips, pair } => (6, trips, Some(pair)),
        EvalClass::FourOfAKind { quads } => (7, quads, None),
        EvalClass::StraightFlush { high_rank } => (8, high_rank, None),
    };
    k << 16 | rank(a) << 8 | b.map_or(99, rank)
}

/// Category, ranks, and where it stands among all strengths.
fn strength(p: &Place, e: Eval, out: &mut dyn Sink) {
    let i = p.sorted.partition_point(|s| s.is_worse_than(e));
    out.num(class(e.class()) << 32 | (i as u64) << 1 | (p.sorted.get(i) == Some(&e)) as u64);
}

fn evaluated(p: &Place, r: Result<Eval, EvalError>, out: &mut dyn Sink) {
    match r {
        Ok(e) => strength(p, e, out),
        Err(EvalError::InvalidHandSize(n)) => out.num(1 << 60 | n as u64),
        Err(EvalError::CardsNotUnique(v)) => {
            out.num(1 << 61 | v.len() as u64);
            for c in v {
                out.num(which(p, c));
            }
        }
    }
}

fn which(p: &Place, c: Card) -> u64 { p.deck.iter().position(|d| *d == c).map_or(99, |i| i as u64) }

fn choose(n: u64, k: u64) -> u64 { (0..k).fold(1, |c, i| c * n.saturating_sub(i) / (i + 1)) }

/// The x-th choice of k cards.
fn unrank<const K: usize>(mut x: u64) -> [usize; K] {
    let mut out = [0; K];
    let mut n = 52u64;
    for k in (1..=K).rev() {
        // binomials fall quickly
        loop {
            n -= 1;
            let c = choose(n, k as u64);
            if c <= x {
                x -= c;
                out[k - 1] = n as usize;
                break;
            }
        }
    }
    out
}

fn parsed(p: &Place, s: &str, out: &mut dyn Sink) {
    match s.parse::<Card>() {
        Ok(c) => out.num(which(p, c)),
        Err(e) => out.text(&e.to_string()),
    }
}

const LETTERS: [char; 24] = ['A', 's', '2', 'c', 'T', 'K', 'd', 'h', 'x', 'a', 'S', '1', '0', ' ', '\n', '\'', '\\', '{', '\u{e9}', '\u{2660}', '\u{1F0A1}', '\0', '\u{301}', '\u{10FFFF}'];

fn string(mut x: u64) -> String {
    let mut s = String::new();
    while x > 0 {
        x -= 1;
        s.push(LETTERS[(x % 24) as usize]);
        x /= 24;
    }
    s
}

/// Words in order: a message may name the cards in any.
fn ordered(s: &str) -> String {
    let mut w: Vec<&str> = s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
    w.sort();
    w.join(" ")
}

pub struct Space {
    pub name: &'static str,
    pub items: u64,
    pub tell: fn(u64) -> String,
    run: fn(&Place, u64, &mut dyn Sink),
}

fn named(ids: impl IntoIterator<Item = usize>) -> String {
    let mut s = String::from("cards");
    for i in ids {
        s += &format!(" {}{}", ["2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A"][i / 4], ["c", "h", "s", "d"][i % 4]);
    }
    s
}

/// Lists of n cards with the cards at two places the same.
fn repeated(x: u64) -> Vec<usize> {
    let n = 2 + (x % 24) as usize;
    let i = (x / 24 % 25) as usize % n;
    let j = (x / 600 % 25) as usize % n;
    let mut v: Vec<usize> = (0..n).map(|k| (k * 7 + (x / 15_000) as usize * 3) % 52).collect();
    if i != j {
        v[i] = v[j];
    } else {
        v.truncate(7);
    }
    v
}

pub const SPACES: [Space; 15] = [
    Space { name: "five", items: 2_598_960, tell: |x| named(unrank::<5>(x)), run: |p, x, out| evaluated(p, p.ev.evaluate(unrank::<5>(x).map(|i| p.deck[i])), out) },
    Space { name: "six", items: 20_358_520, tell: |x| named(unrank::<6>(x)), run: |p, x, out| evaluated(p, p.ev.evaluate(unrank::<6>(x).map(|i| p.deck[i])), out) },
    Space { name: "seven", items: 133_784_560, tell: |x| named(unrank::<7>(x)), run: |p, x, out| evaluated(p, p.ev.evaluate(unrank::<7>(x).map(|i| p.deck[i])), out) },
    Space { name: "lists", items: 1 + 52 + 2704 + 140_608 + 7_311_616, tell: |x| named(list(x)), run: |p, x, out| {
        let v: Vec<Card> = list(x).into_iter().map(|i| p.deck[i]).collect();
        evaluated(p, p.ev.evaluate(v), out);
    } },
    Space { name: "repeats", items: 15_000 * 17, tell: |x| named(repeated(x)), run: |p, x, out| {
        let v: Vec<Card> = repeated(x).into_iter().map(|i| p.deck[i]).collect();
        let r = p.ev.evaluate(v);
        if let Err(e) = &r {
            out.text(&ordered(&e.to_string()));
        }
        evaluated(p, r, out);
    } },
    Space { name: "large", items: 52 * 24, tell: |x| named(large(x)), run: |p, x, out| {
        let v: Vec<Card> = large(x).into_iter().map(|i| p.deck[i]).collect();
        evaluated(p, p.ev.evaluate(v), out);
    } },
    Space { name: "characters", items: 0x110000, tell: |x| format!("strings with U+{x:04X}"), run: |p, x, out| if let Some(c) = char::from_u32(x as u32) {
        for s in [c.to_string(), format!("{c}s"), format!("A{c}")] {
            parsed(p, &s, out);
        }
        for (a, b) in [(c, 's'), ('A', c)] {
            match Card::try_from_chars(a, b) {
                Ok(c) => out.num(which(p, c)),
                Err(e) => out.text(&e.to_string()),
            }
        }
        out.num(Rank::try_from(c).map_or(99, rank));
        out.num(Suit::try_from(c).map_or(99, suit));
    } },
    Space { name: "strings", items: 1 + 24 + 576 + 13_824 + 331_776, tell: |x| format!("string {:?}", string(x)), run: |p, x, out| parsed(p, &string(x), out) },
    Space { name: "texts", items: 7462, tell: |x| format!("texts of the strength of {}", named(place().hands[x as usize].map(|i| i as usize))), run: |p, x, out| {
        if let Ok(e) = p.ev.evaluate(p.hands[x as usize].map(|i| p.deck[i as usize])) {
            strength(p, e, out);
            out.text(&e.to_string());
            out.text(&e.class().to_string());
            let f = [e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(), e.is_flush(), e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(), e.is_royal_flush()];
            out.num(f.iter().fold(0, |n, &b| n << 1 | b as u64));
            out.num((e == Eval::BEST) as u64 | ((e == Eval::WORST) as u64) << 1);
        }
    } },
    Space { name: "strengths", items: 7462, tell: |x| format!("comparisons with strength {x} of 7462"), run: |p, x, out| {
        let Some(&e) = p.sorted.get(x as usize) else { return out.num(77) };
        let mut n = 0;
        for (i, &f) in p.sorted.iter().enumerate().filter(|(i, _)| i % 16 == x as usize % 16) {
            n = e.cmp(&f) as i8 as u8 as u64 | (e == f) as u64 * 8 | (e.class().cmp(&f.class()) as i8 as u8 as u64) << 8 | (e.is_better_than(f) as u64) << 16 | (e.max(f) == e) as u64 * (1 << 17) | n << 18 ^ n >> 46;
            if i % 8 == 0 {
                out.num(n);
            }
        }
        out.num(n);
    } },
    Space { name: "cards", items: 2704, tell: |x| named([x as usize / 52, x as usize % 52]), run: |p, x, out| {
        let (a, b) = (p.deck[x as usize / 52], p.deck[x as usize % 52]);
        out.num((a == b) as u64 | (a.cmp(&b) as i8 as u8 as u64) << 8 | (a.rank().cmp(&b.rank()) as i8 as u8 as u64) << 16);
        out.num(a.unique_integer() as u32 as u64);
        out.num(rank(a.rank()) << 8 | suit(a.suit()));
        for s in [a.to_string(), a.rank_suit_string(), a.rank().to_string(), a.suit().to_string(), a.rank().as_char().to_string(), a.suit().as_char().to_string(), a.suit().as_pretty_char().to_string(), format!("{a:?}")] {
            out.text(&s);
        }
    } },
    Space { name: "batches", items: 24 * 24 * 24 * 24, tell: |x| format!("the batch {:?}", batch(x)), run: |p, x, out| {
        let b = batch(x);
        for c in Card::parse_to_iter(&b) {
            out.num(c.map_or_else(|e| e.to_string().len() as u64 + 100, |c| which(p, c)));
        }
        match Card::parse_to_iter(&b).try_collect::<Vec<Card>>() {
            Ok(v) => out.num(v.len() as u64),
            Err(e) => out.text(&e.to_string()),
        }
        out.num(Card::parse_to_iter(&b).count() as u64);
        out.num(cards!(b.join(" ")).filter(|c| c.is_ok()).count() as u64);
    } },
    Space { name: "decks", items: 4096, tell: |x| format!("shuffle {x}"), run: |p, x, out| {
        // which deck comes out is left to the generator, that it is one is not
        let mut whole = |d: Vec<Card>| {
            let set = d.iter().fold(0u64, |n, &c| n | 1 << which(p, c).min(63));
            out.num(d.len() as u64);
            out.num(set);
        };
        whole(deck::generate().collect());
        whole(deck::shuffled_with(&mut StdRng::seed_from_u64(x)));
        whole(deck::shuffled());
        let again = |x| deck::shuffled_with(&mut StdRng::seed_from_u64(x));
        out.num((again(x) == again(x)) as u64);
        for c in deck::generate().take(x as usize % 53) {
            out.num(which(p, c));
        }
    } },
    Space { name: "lengths", items: 4096, tell: |x| format!("strings of length {x} and lists of {x} equal cards"), run: |p, x, out| {
        let n = x as usize;
        for c in ["x", "A", "\u{e9}", "\u{1F0A1}"] {
            if let Err(e) = c.repeat(n).parse::<Card>() {
                let t = e.to_string();
                out.num(t.len() as u64);
                out.text(&t[t.len() - 30.min(t.len())..]);
            }
        }
        let r = p.ev.evaluate(vec![p.deck[n % 52]; n]);
        if let Err(e) = &r {
            out.text(&ordered(&e.to_string()));
        }
        evaluated(p, r.map_err(|e| match e {
            EvalError::CardsNotUnique(v) if v.len() == n => EvalError::CardsNotUnique(v[..2].to_vec()),
            e => e,
        }), out);
    } },
    Space { name: "orders", items: 7462 * 24, tell: |x| named(turned(place(), x)), run: |p, x, out| {
        let v: Vec<Card> = turned(p, x).into_iter().map(|i| p.deck[i]).collect();
        evaluated(p, p.ev.evaluate(v), out);
    } },
];

fn list(mut x: u64) -> Vec<usize> {
    let mut n = 0;
    let mut many = 1;
    while x >= many {
        x -= many;
        many *= 52;
        n += 1;
    }
    (0..n).map(|_| { let i = x % 52; x /= 52; i as usize }).collect()
}

fn large(x: u64) -> Vec<usize> {
    let n = 8 + (x % 24) as usize % 8;
    (0..n).map(|k| (k * [1, 5, 7, 11, 17, 23, 25, 29][x as usize / 8 % 3 * 2 + (x & 1) as usize] + x as usize / 24) % 52).collect()
}

fn batch(mut x: u64) -> Vec<String> {
    (0..4).map(|_| {
        let i = x % 24;
        x /= 24;
        ["As", "Kd", "2c", "Th", "", "A", "s", "10s", "as", "AS", " As", "As ", "\u{e9}s", "A\u{2660}", "9h", "9H", "Q c", "Jc", "0c", "1d", "4d", "5s", "6h", "7c"][i as usize].to_string()
    }).collect()
}

/// A hand of each strength in different orders, suits and company.
fn turned(p: &Place, x: u64) -> Vec<usize> {
    let (h, t) = (p.hands[(x / 24) as usize], (x % 24) as usize);
    let mut v: Vec<usize> = (0..5).map(|i| h[(i * [1, 2, 3, 4][t / 6] + t) % 5] as usize).map(|c| c / 4 * 4 + (c + t) % 4).collect();
    for c in (0..52).map(|c| (c * 11 + x as usize) % 52) {
        if v.len() < 5 + t % 3 && !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

pub fn space(name: &str) -> Option<usize> { SPACES.iter().position(|s| s.name == name) }

/// Digest of every `step`-th item from `a` up to `b`.
pub fn digest(space: usize, a: u64, b: u64, step: u64) -> u64 {
    let p = place();
    let mut d = Digest(1);
    let mut x = a;
    while x < b {
        (SPACES[space].run)(p, x, &mut d);
        x += step;
    }
    d.0
}

pub fn explain(space: usize, x: u64) -> String {
    let mut s = String::new();
    (SPACES[space].run)(place(), x, &mut s);
    s
}

// ---------------------------------------------------------------- wasm

#[no_mangle]
pub extern "C" fn pf_digest(space: u32, a: u32, b: u32, step: u32) -> u64 { digest(space as usize, a as u64, b as u64, step as u64) }

thread_local!(static TEXT: RefCell<String> = const { RefCell::new(String::new()) });

#[no_mangle]
pub extern "C" fn pf_explain(space: u32, x: u32) -> u32 {
    let s = explain(space as usize, x as u64);
    let n = s.len() as u32;
    TEXT.with(|t| *t.borrow_mut() = s);
    n
}

#[no_mangle]
pub extern "C" fn pf_text() -> *const u8 { TEXT.with(|t| t.borrow().as_ptr()) }
