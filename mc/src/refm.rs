//! The reference model: the rules of poker, written over card sets, with no
//! table, no primes and no five-card combinations.
//!
//! A card is `(rank 0..13, suit 0..4)`; its id is `rank * 4 + suit`; a set of
//! cards is a `u64` with bit `suit * 16 + rank`.

use poker::{Card, EvalClass, ParseCardError, Rank, Suit};

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight,
    Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];
pub const SUITS: [Suit; 4] = [Suit::Spades, Suit::Hearts, Suit::Diamonds, Suit::Clubs];
pub const RANK_CHARS: [char; 13] =
    ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CHARS: [char; 4] = ['s', 'h', 'd', 'c'];
pub const SUIT_SYMBOLS: [char; 4] = ['\u{2660}', '\u{2665}', '\u{2666}', '\u{2663}'];
pub const NAMES: [&str; 13] = [
    "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen",
    "king", "ace",
];
pub const PLURALS: [&str; 13] = [
    "twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks",
    "queens", "kings", "aces",
];

pub const fn bit(id: usize) -> u64 { 1u64 << ((id % 4) * 16 + id / 4) }

pub fn card(id: usize) -> Card { Card::new(RANKS[id / 4], SUITS[id % 4]) }

pub fn deck() -> [Card; 52] { std::array::from_fn(card) }

pub fn text(id: usize) -> String { format!("{}{}", RANK_CHARS[id / 4], SUIT_CHARS[id % 4]) }

pub fn hand_text(ids: &[usize]) -> String {
    ids.iter().map(|&i| text(i)).collect::<Vec<_>>().join(" ")
}

pub fn mask_text(m: u64) -> String {
    let ids: Vec<usize> = (0..52).filter(|&i| m & bit(i) != 0).collect();
    hand_text(&ids)
}

fn top(x: u32) -> u32 { 31 - x.leading_zeros() }

/// Keep the `n` highest bits.
fn top_n(mut x: u32, n: u32) -> u32 {
    while x.count_ones() > n {
        x &= x - 1;
    }
    x
}

/// Highest card of the best straight among these ranks (3 = five-high).
fn straight(x: u32) -> Option<u32> {
    for hi in (4..13).rev() {
        let need = 0b11111 << (hi - 4);
        if x & need == need {
            return Some(hi);
        }
    }
    let wheel = 0b1_0000_0000_1111;
    if x & wheel == wheel {
        return Some(3);
    }
    None
}

pub const HIGH_CARD: u32 = 0;
pub const PAIR: u32 = 1;
pub const TWO_PAIR: u32 = 2;
pub const TRIPS: u32 = 3;
pub const STRAIGHT: u32 = 4;
pub const FLUSH: u32 = 5;
pub const FULL_HOUSE: u32 = 6;
pub const QUADS: u32 = 7;
pub const STRAIGHT_FLUSH: u32 = 8;

/// category, then up to five ranks, most significant first.
fn pack(cat: u32, ranks: &[u32]) -> u32 {
    let mut v = cat;
    for i in 0..5 {
        v = (v << 4) | ranks.get(i).copied().unwrap_or(0);
    }
    v
}

/// Ranks of a set of distinct ranks, highest first, appended to `head`.
fn with_kickers(cat: u32, head: &[u32], mut kick: u32) -> u32 {
    let mut r = [0u32; 5];
    r[..head.len()].copy_from_slice(head);
    let mut n = head.len();
    while kick != 0 {
        let t = top(kick);
        r[n] = t;
        n += 1;
        kick &= !(1 << t);
    }
    pack(cat, &r[..n])
}

/// Strength of the best five-card hand in a set of at least five cards.
/// Larger is better, equal is a tie.
pub fn strength(m: u64) -> u32 {
    let s: [u32; 4] = std::array::from_fn(|i| ((m >> (16 * i)) & 0x1fff) as u32);
    let [a, b, c, d] = s;
    let one = a | b | c | d;
    let two = (a & b) | (c & d) | ((a | b) & (c | d));
    let three = (a & b & (c | d)) | (c & d & (a | b));
    let four = a & b & c & d;

    let mut flush = 0u32;
    let mut sf = None;
    for x in s {
        if x.count_ones() >= 5 {
            flush = flush.max(top_n(x, 5));
            sf = sf.max(straight(x));
        }
    }
    if let Some(hi) = sf {
        return pack(STRAIGHT_FLUSH, &[hi]);
    }
    if four != 0 {
        let q = top(four);
        return pack(QUADS, &[q, top(one & !(1 << q))]);
    }
    if three != 0 {
        let t = top(three);
        let p = two & !(1 << t);
        if p != 0 {
            return pack(FULL_HOUSE, &[t, top(p)]);
        }
    }
    if flush != 0 {
        return with_kickers(FLUSH, &[], flush);
    }
    if let Some(hi) = straight(one) {
        return pack(STRAIGHT, &[hi]);
    }
    if three != 0 {
        let t = top(three);
        return with_kickers(TRIPS, &[t], top_n(one & !(1 << t), 2));
    }
    if two != 0 {
        let p = top(two);
        let rest = two & !(1 << p);
        if rest != 0 {
            let q = top(rest);
            return with_kickers(TWO_PAIR, &[p, q], top_n(one & !(1 << p) & !(1 << q), 1));
        }
        return with_kickers(PAIR, &[p], top_n(one & !(1 << p), 3));
    }
    with_kickers(HIGH_CARD, &[], top_n(one, 5))
}

/// A second, deliberately naive rule book for exactly five cards, used only to
/// cross-check `strength`.
pub fn naive_five(ids: &[usize; 5]) -> u32 {
    let mut ranks: Vec<usize> = ids.iter().map(|i| i / 4).collect();
    ranks.sort();
    ranks.reverse();
    let flush = ids.iter().all(|i| i % 4 == ids[0] % 4);
    let mut groups: Vec<(usize, usize)> = vec![];
    for r in (0..13).rev() {
        let n = ranks.iter().filter(|&&x| x == r).count();
        if n > 0 {
            groups.push((n, r));
        }
    }
    groups.sort_by(|x, y| y.cmp(x));
    let shape: Vec<usize> = groups.iter().map(|g| g.0).collect();
    let in_order: Vec<u32> = groups.iter().map(|g| g.1 as u32).collect();
    let distinct = groups.len() == 5;
    let st = if distinct && ranks[0] - ranks[4] == 4 {
        Some(ranks[0] as u32)
    } else if ranks == [12, 3, 2, 1, 0] {
        Some(3)
    } else {
        None
    };
    match (flush, st, shape.as_slice()) {
        (true, Some(h), _) => pack(STRAIGHT_FLUSH, &[h]),
        (_, _, [4, 1]) => pack(QUADS, &in_order),
        (_, _, [3, 2]) => pack(FULL_HOUSE, &in_order),
        (true, None, _) => pack(FLUSH, &in_order),
        (false, Some(h), _) => pack(STRAIGHT, &[h]),
        (_, _, [3, 1, 1]) => pack(TRIPS, &in_order),
        (_, _, [2, 2, 1]) => pack(TWO_PAIR, &in_order),
        (_, _, [2, 1, 1, 1]) => pack(PAIR, &in_order),
        _ => pack(HIGH_CARD, &in_order),
    }
}

pub fn cat(s: u32) -> u32 { s >> 20 }

pub fn nth(s: u32, i: usize) -> usize { ((s >> (16 - 4 * i)) & 15) as usize }

pub fn class_of(s: u32) -> EvalClass {
    let r = |i| RANKS[nth(s, i)];
    match cat(s) {
        HIGH_CARD => EvalClass::HighCard { high_rank: r(0) },
        PAIR => EvalClass::Pair { pair: r(0) },
        TWO_PAIR => EvalClass::TwoPair { first_pair: r(0), second_pair: r(1) },
        TRIPS => EvalClass::ThreeOfAKind { trips: r(0) },
        STRAIGHT => EvalClass::Straight { high_rank: r(0) },
        FLUSH => EvalClass::Flush { high_rank: r(0) },
        FULL_HOUSE => EvalClass::FullHouse { trips: r(0), pair: r(1) },
        QUADS => EvalClass::FourOfAKind { quads: r(0) },
        _ => EvalClass::StraightFlush { high_rank: r(0) },
    }
}

/// Category and the ranks that define the class: how class values are ordered.
pub fn class_key(s: u32) -> (u32, usize, usize) {
    match cat(s) {
        TWO_PAIR | FULL_HOUSE => (cat(s), nth(s, 0), nth(s, 1)),
        c => (c, nth(s, 0), 0),
    }
}

pub fn name_of(s: u32) -> String {
    let one = |i| NAMES[nth(s, i)];
    let many = |i| PLURALS[nth(s, i)];
    match cat(s) {
        HIGH_CARD => format!("High card, {}", one(0)),
        PAIR => format!("Pair, {}", many(0)),
        TWO_PAIR => format!("Two pair, {} and {}", many(0), many(1)),
        TRIPS => format!("Three of a kind, {}", many(0)),
        STRAIGHT => format!("Straight, {}-high", one(0)),
        FLUSH => format!("Flush, {}-high", one(0)),
        FULL_HOUSE => format!("Full house, {} over {}", many(0), many(1)),
        QUADS => format!("Four of a kind, {}", many(0)),
        _ if nth(s, 0) == 12 => "Royal flush".to_string(),
        _ => format!("Straight flush, {}-high", one(0)),
    }
}

/// The 7,462 strengths, weakest first, each with one hand that has it.
pub struct Strengths {
    pub list: Vec<u32>,
    pub rep: Vec<[usize; 5]>,
    index: Vec<u16>,
}

impl Strengths {
    pub fn new() -> Self {
        let mut all: Vec<(u32, [usize; 5])> = vec![];
        // every multiset of five ranks, as a mixed-suit hand, and every set of
        // five ranks as a suited hand
        for a in 0..13 {
            for b in 0..=a {
                for c in 0..=b {
                    for d in 0..=c {
                        for e in 0..=d {
                            let rs = [a, b, c, d, e];
                            if a == e {
                                continue;
                            }
                            let mut used = [0usize; 13];
                            let distinct = a != b && b != c && c != d && d != e;
                            let mut ids: [usize; 5] = std::array::from_fn(|i| {
                                let r = rs[i];
                                let s = used[r];
                                used[r] += 1;
                                r * 4 + s
                            });
                            if distinct {
                                let suited: [usize; 5] = std::array::from_fn(|i| rs[i] * 4 + 2);
                                all.push((strength(suited.iter().map(|&i| bit(i)).sum()), suited));
                                ids[4] += 1;
                            }
                            all.push((strength(ids.iter().map(|&i| bit(i)).sum()), ids));
                        }
                    }
                }
            }
        }
        all.sort();
        let mut index = vec![u16::MAX; 1 << 24];
        for (i, x) in all.iter().enumerate() {
            index[x.0 as usize] = i as u16;
        }
        Strengths {
            list: all.iter().map(|x| x.0).collect(),
            rep: all.iter().map(|x| x.1).collect(),
            index,
        }
    }

    pub fn len(&self) -> usize { self.list.len() }

    #[inline]
    pub fn idx(&self, s: u32) -> usize { self.index[s as usize] as usize }
}

pub fn rank_of(c: char) -> Option<usize> { RANK_CHARS.iter().position(|&x| x == c) }
pub fn suit_of(c: char) -> Option<usize> { SUIT_CHARS.iter().position(|&x| x == c) }

/// What parsing `s` must give.
pub fn model_parse(s: &str) -> Result<usize, ParseCardError> {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() != 2 {
        return Err(ParseCardError::InvalidLength { original_input: s.to_string() });
    }
    let Some(r) = rank_of(cs[0]) else {
        return Err(ParseCardError::InvalidRank { original_input: s.to_string(), incorrect_char: cs[0] });
    };
    let Some(u) = suit_of(cs[1]) else {
        return Err(ParseCardError::InvalidSuit { original_input: s.to_string(), incorrect_char: cs[1] });
    };
    Ok(r * 4 + u)
}
