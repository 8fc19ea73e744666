//! C08, C09, C10, C11, C12, C17: single cards, text, batches, the deck.

use std::{
    cell::Cell,
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
    rc::Rc,
    str::FromStr,
};

use poker::{deck, Card, ParseCardError, Rank, Suit};

use crate::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::*,
    refm::{self, model_parse, rank_of, suit_of, RANKS, RANK_CHARS, SUITS, SUIT_CHARS, SUIT_SYMBOLS},
};

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- C08

const fn const_deck() -> [Card; 52] {
    let mut d = [Card::new(Rank::Two, Suit::Clubs); 52];
    let mut i = 0;
    while i < 52 {
        d[i] = Card::new(RANKS[i / 4], SUITS[i % 4]);
        i += 1;
    }
    d
}

const CONST_DECK: [Card; 52] = const_deck();

const fn const_parts() -> [(Rank, Suit, i32); 52] {
    let mut d = [(Rank::Two, Suit::Clubs, 0); 52];
    let mut i = 0;
    while i < 52 {
        let c = CONST_DECK[i];
        d[i] = (c.rank(), c.suit(), c.unique_integer());
        i += 1;
    }
    d
}

const CONST_PARTS: [(Rank, Suit, i32); 52] = const_parts();

/// The layout of the module documentation, bit by bit.
pub fn documented_integer(id: usize) -> i32 {
    const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
    const SUIT_BITS: [i32; 4] = [1, 2, 4, 8]; // spades, hearts, diamonds, clubs
    let (r, s) = (id / 4, id % 4);
    (1 << (16 + r)) | (SUIT_BITS[s] << 12) | ((r as i32) << 8) | PRIMES[r]
}

pub fn c08(_env: &Env) -> Vec<Family<'_>> {
    vec![
        family("every-card", "all 52 rank/suit choices, built at run time and at compile time", 52, |i, ctx| {
            ctx.note(i as u64);
            let (r, s) = (RANKS[i / 4], SUITS[i % 4]);
            let c = Card::new(std::hint::black_box(r), std::hint::black_box(s));
            for (how, rank, suit, int) in [
                ("built at run time", c.rank(), c.suit(), c.unique_integer()),
                ("built at compile time", CONST_DECK[i].rank(), CONST_DECK[i].suit(), CONST_DECK[i].unique_integer()),
                ("built and read at compile time", CONST_PARTS[i].0, CONST_PARTS[i].1, CONST_PARTS[i].2),
            ] {
                ensure!(rank == r, "{} {how} reports rank {rank:?}", refm::text(i));
                ensure!(suit == s, "{} {how} reports suit {suit:?}", refm::text(i));
                ensure!(int == documented_integer(i), "{} {how} is encoded as {int:#034b}, documented layout is {:#034b}", refm::text(i), documented_integer(i));
                ctx.transitions += 3;
            }
            let copies = [c, c.clone(), *&c, CONST_DECK[i]];
            for d in copies {
                ensure!(d == c && d.unique_integer() == c.unique_integer() && hash_of(&d) == hash_of(&c), "a copy of {} differs", refm::text(i));
                ctx.transitions += 1;
            }
            ctx.states += 1;
            ctx.traces += 3;
            ctx.outcome(c.unique_integer() as u64);
            ctx.sample(|| format!("{} = {:#x}", refm::text(i), c.unique_integer()));
        }),
        family("every-pair", "all 2,704 ordered pairs: equality, inequality, hash, integers", 52, |i, ctx| {
            for j in 0..52 {
                ctx.note((i * 52 + j) as u64);
                let (a, b) = (refm::card(i), CONST_DECK[j]);
                let same = i == j;
                ensure!((a == b) == same && (a != b) != same, "{} == {} is {}", refm::text(i), refm::text(j), a == b);
                ensure!((a.unique_integer() == b.unique_integer()) == same, "{} and {} share an integer", refm::text(i), refm::text(j));
                ensure!(!same || hash_of(&a) == hash_of(&b), "{} hashes differently when built twice", refm::text(i));
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 4;
            }
        }),
        family("card-sets", "a hash set of all cards keeps 52, also when every card is inserted from two sources", 1, |_, ctx| {
            let mut s = HashSet::new();
            for i in 0..52 {
                ensure!(s.insert(refm::card(i)), "{} counts as already present", refm::text(i));
                ensure!(!s.insert(CONST_DECK[i]), "{} built at compile time counts as a new card", refm::text(i));
                ctx.transitions += 2;
            }
            ensure!(s.len() == 52, "set of all cards has {} elements", s.len());
            ctx.states += 1;
            ctx.traces += 1;
        }),
    ]
}

// ---------------------------------------------------------------- C09

/// Compare without allocating on the common paths.
fn judge_parse(ctx: &mut Ctx, s: &str) {
    let got = s.parse::<Card>();
    let mut cs = s.chars();
    let ok = match (cs.next(), cs.next(), cs.next()) {
        (Some(a), Some(b), None) => match (rank_of(a), suit_of(b)) {
            (Some(r), Some(u)) => got == Ok(refm::card(r * 4 + u)),
            (None, _) => matches!(&got, Err(ParseCardError::InvalidRank { original_input, incorrect_char }) if original_input == s && *incorrect_char == a),
            (_, None) => matches!(&got, Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) if original_input == s && *incorrect_char == b),
        },
        _ => matches!(&got, Err(ParseCardError::InvalidLength { original_input }) if original_input == s),
    };
    if !ok {
        let want = match model_parse(s) {
            Ok(i) => format!("the card {}", refm::text(i)),
            Err(e) => format!("{e:?}"),
        };
        let short: String = s.chars().take(40).collect();
        fail(format!("parsing {short:?} ({} characters) gives {}, should be {}", s.chars().count(), cut(&format!("{got:?}")), cut(&want)));
    }
    ctx.states += 1;
    ctx.traces += 1;
    ctx.transitions += 1;
}

fn cut(s: &str) -> String { s.chars().take(200).collect() }

fn judge_chars(ctx: &mut Ctx, a: char, b: char) {
    let got = Card::try_from_chars(a, b);
    let ok = match (rank_of(a), suit_of(b)) {
        (Some(r), Some(u)) => got == Ok(refm::card(r * 4 + u)),
        (r, u) => match &got {
            Err(ParseCardError::InvalidRank { original_input, incorrect_char }) => {
                r.is_none() && *incorrect_char == a && original_input.contains(a)
            }
            Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) => {
                u.is_none() && *incorrect_char == b && original_input.contains(b)
            }
            _ => false,
        },
    };
    ensure!(ok, "building a card from {a:?} and {b:?} gives {got:?}");
    ctx.traces += 1;
    ctx.transitions += 1;
}

fn judge_conversions(ctx: &mut Ctx, c: char) {
    let r = Rank::try_from(c);
    ensure!(r == rank_of(c).map(|i| RANKS[i]).ok_or(c), "{c:?} as a rank gives {r:?}");
    let s = Suit::try_from(c);
    ensure!(s == suit_of(c).map(|i| SUITS[i]).ok_or(c), "{c:?} as a suit gives {s:?}");
    ctx.traces += 2;
    ctx.transitions += 2;
}

fn describe_scalar(n: u64) -> String {
    match char::from_u32(n as u32) {
        Some(c) => format!("parsing of strings around the character {c:?} (U+{n:04X})"),
        None => format!("parsing of string number {n}"),
    }
}

pub fn c09(env: &Env) -> Vec<Family<'_>> {
    let blocks = 0x11_0000 / 0x400;
    let confusing = [
        'A', 'a', 'T', '1', '0', 's', 'S', 'c', '\u{2660}', '\u{e9}', ' ', '\u{0}', '\u{301}', '\u{1F0A1}',
    ];
    let k = confusing.len();
    let clen = if env.thorough() { 6 } else { 5 };
    let alen = if env.thorough() { 4 } else { 3 };
    let thorough = env.thorough();
    vec![
        family("every-character-everywhere", "each of the 1,112,064 Unicode characters: alone, doubled, as rank before every suit, as suit after every rank, before/between/after valid cards, as separate characters", blocks, move |b, ctx| {
            let mut s = String::new();
            let mut buf = [0u8; 4];
            for u in (b * 0x400) as u32..((b + 1) * 0x400) as u32 {
                let Some(c) = char::from_u32(u) else { continue };
                ctx.note(u as u64);
                let c_str = &*c.encode_utf8(&mut buf);
                judge_conversions(ctx, c);
                judge_parse(ctx, c_str);
                let mut go = |ctx: &mut Ctx, parts: &[&str]| {
                    s.clear();
                    for p in parts {
                        s.push_str(p);
                    }
                    judge_parse(ctx, &s);
                };
                go(ctx, &[c_str, c_str]);
                for x in ["s", "h", "d", "c"] {
                    go(ctx, &[c_str, x]);
                    judge_chars(ctx, c, x.chars().next().unwrap());
                }
                for x in ["2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A"] {
                    go(ctx, &[x, c_str]);
                    judge_chars(ctx, x.chars().next().unwrap(), c);
                }
                judge_chars(ctx, c, c);
                go(ctx, &[c_str, "As"]);
                go(ctx, &["A", c_str, "s"]);
                go(ctx, &["As", c_str]);
                go(ctx, &["2c", c_str]);
                if thorough {
                    for i in 0..52 {
                        let t = refm::text(i);
                        go(ctx, &[c_str, &t]);
                        go(ctx, &[&t[..1], c_str, &t[1..]]);
                        go(ctx, &[&t, c_str]);
                    }
                }
                if rank_of(c).is_some() || suit_of(c).is_some() {
                    ctx.outcome(u as u64);
                }
            }
        })
        .describe(describe_scalar),
        family("ascii-strings", format!("every ASCII string of length 0 to {alen}"), 128, move |a, ctx| {
            let mut v = vec![a as u8];
            if a == 0 {
                judge_parse(ctx, "");
            }
            judge_parse(ctx, std::str::from_utf8(&v).unwrap());
            for n in 2..=alen {
                v.resize(n, 0);
                v[1..].fill(0);
                loop {
                    ctx.note(v.iter().fold(0, |x, &b| x << 7 | b as u64));
                    judge_parse(ctx, std::str::from_utf8(&v).unwrap());
                    let mut i = n - 1;
                    loop {
                        if i == 0 {
                            break;
                        }
                        v[i] += 1;
                        if v[i] < 128 {
                            break;
                        }
                        v[i] = 0;
                        i -= 1;
                    }
                    if i == 0 {
                        break;
                    }
                }
            }
            ctx.sample(|| format!("{:?}", std::str::from_utf8(&v).unwrap()));
        })
        .describe(|n| format!("parsing of the ASCII string with code {n:#x}")),
        family("confusable-strings", format!("every string of up to {clen} characters over {confusing:?}"), k * k, move |c, ctx| {
            let mut idx = vec![c / k, c % k];
            if c == 0 {
                for x in confusing {
                    judge_parse(ctx, &x.to_string());
                }
            }
            for n in 2..=clen {
                idx.resize(n, 0);
                idx[2..].fill(0);
                loop {
                    let s: String = idx.iter().map(|&i| confusing[i]).collect();
                    ctx.note(idx.iter().fold(1, |x, &b| x << 4 | b as u64));
                    judge_parse(ctx, &s);
                    ensure!(Card::from_str(&s) == s.parse(), "from_str and parse disagree on {s:?}");
                    let mut i = n;
                    let done = loop {
                        if i == 2 {
                            break true;
                        }
                        i -= 1;
                        idx[i] += 1;
                        if idx[i] < k {
                            break false;
                        }
                        idx[i] = 0;
                    };
                    if done {
                        break;
                    }
                }
            }
        })
        .describe(|n| format!("parsing of the confusable string with code {n:#x}")),
        family("character-pairs", "every ordered pair out of 330 characters (all Latin-1, card symbols, look-alikes) as separate characters and as a string", 330, |a, ctx| {
            let set: Vec<char> = (0u32..256)
                .filter_map(char::from_u32)
                .chain("♠♥♦♣♤♡♢♧АТКΑΚТА２３４５６７８９ＴＪＱＫＡｓｈｄｃ𝐀𝐊𝟚𝟛♔♕🂡🂱ſКK\u{200b}\u{feff}\u{fe0f}\u{300}\u{10ffff}\u{d7ff}\u{e000}\u{ffff}\u{100}\u{141}\u{154}\u{174}\u{241}\u{1041}\u{10041}\u{10073}\u{173}\u{163}\u{164}\u{168}".chars())
                .collect();
            if a >= set.len() {
                return;
            }
            for &b in &set {
                ctx.note(set[a] as u64);
                judge_chars(ctx, set[a], b);
                let s: String = [set[a], b].iter().collect();
                judge_parse(ctx, &s);
            }
        })
        .describe(describe_scalar),
        family("long-strings", "lengths 3..=1100 and 2^k-1..2^k+3 up to 2^18+3: valid card then repeats, padding by spaces, zeros, or multi-byte characters", 1098 + 8 * 5, |k, ctx| {
            let n = if k < 1098 { 3 + k } else { (1 << (11 + (k - 1098) / 5)) + (k - 1098) % 5 - 1 };
            ctx.note(n as u64);
            for fill in ["s", " ", "\u{0}", "\u{e9}", "As", "\n", "\u{1F0A1}"] {
                let mut s = String::from("As");
                for _ in 0..(n - 2).div_ceil(fill.chars().count()) {
                    s.push_str(fill);
                }
                judge_parse(ctx, &s);
                let mut t = fill.repeat(n.div_ceil(fill.len()));
                t.push_str("As");
                judge_parse(ctx, &t);
            }
        })
        .describe(|n| format!("parsing of strings of length {n}")),
    ]
}

// ---------------------------------------------------------------- C10

pub fn c10(_env: &Env) -> Vec<Family<'_>> {
    fn formats<T: std::fmt::Display>(t: T) -> Vec<String> {
        vec![
            format!("{t}"),
            t.to_string(),
            format!("{t:1}"),
            format!("{t:20}"),
            format!("{t:<20}"),
            format!("{t:>20}"),
            format!("{t:^20}"),
            format!("{t:*^20}"),
            format!("{t:020}"),
            format!("{t:+}"),
            format!("{t:#}"),
            format!("{t:w$}", w = 64),
        ]
    }
    vec![
        family("cards", "all 52 cards: two-character form, display form (12 formatting requests), round trips", 52, |i, ctx| {
            ctx.note(i as u64);
            let c = refm::card(i);
            let (r, s) = (RANK_CHARS[i / 4], SUIT_CHARS[i % 4]);
            let t = c.rank_suit_string();
            ensure!(t == format!("{r}{s}"), "two-character form of {} is {t:?}", refm::text(i));
            ensure!(t.parse() == Ok(c), "{t:?} parses back as {:?}", t.parse::<Card>());
            ensure!(Card::try_from_chars(r, s) == Ok(c), "{r} and {s} do not give {}", refm::text(i));
            let shown = format!("[ {}{} ]", r, SUIT_SYMBOLS[i % 4]);
            for (k, f) in formats(c).into_iter().enumerate() {
                if k < 2 {
                    ensure!(f == shown, "{} is displayed as {f:?}", refm::text(i));
                } else {
                    // padding may or may not be applied, the text must be there
                    ensure!(f.contains(&shown) && f.chars().filter(|c| !" *0".contains(*c)).eq(shown.chars().filter(|c| *c != ' ')), "{} is displayed as {f:?} (formatting request {k})", refm::text(i));
                }
                ctx.transitions += 1;
            }
            let _ = format!("{c:?} {c:#?}");
            ctx.transitions += 3;
            ctx.states += 1;
            ctx.traces += 16;
            ctx.sample(|| shown);
        }),
        family("distinct-forms", "no two of the 52 cards share a form", 52, |i, ctx| {
            for j in 0..52 {
                let (a, b) = (refm::card(i), refm::card(j));
                ensure!((a.rank_suit_string() == b.rank_suit_string()) == (i == j), "{} and {} share a form", refm::text(i), refm::text(j));
                ensure!((a.to_string() == b.to_string()) == (i == j), "{} and {} are displayed alike", refm::text(i), refm::text(j));
                ctx.transitions += 2;
                ctx.states += 1;
                ctx.traces += 1;
            }
        }),
        family("ranks-and-suits", "13 ranks and 4 suits: characters, symbols, display, conversion back", 17, |i, ctx| {
            ctx.note(i as u64);
            if i < 13 {
                let r = RANKS[i];
                ensure!(r.as_char() == RANK_CHARS[i], "{r:?} has character {:?}", r.as_char());
                ensure!(Rank::try_from(r.as_char()) == Ok(r), "{:?} converts to {:?}", r.as_char(), Rank::try_from(r.as_char()));
                ensure!(r.to_string() == RANK_CHARS[i].to_string(), "{r:?} is displayed as {r}");
                for f in formats(r) {
                    ensure!(f.contains(RANK_CHARS[i]), "{r:?} is displayed as {f:?}");
                    ctx.transitions += 1;
                }
            } else {
                let s = SUITS[i - 13];
                ensure!(s.as_char() == SUIT_CHARS[i - 13], "{s:?} has character {:?}", s.as_char());
                ensure!(s.as_pretty_char() == SUIT_SYMBOLS[i - 13], "{s:?} has symbol {:?}", s.as_pretty_char());
                ensure!(Suit::try_from(s.as_char()) == Ok(s), "{:?} converts to {:?}", s.as_char(), Suit::try_from(s.as_char()));
                ensure!(s.to_string() == SUIT_SYMBOLS[i - 13].to_string(), "{s:?} is displayed as {s}");
                for f in formats(s) {
                    ensure!(f.contains(SUIT_SYMBOLS[i - 13]), "{s:?} is displayed as {f:?}");
                    ctx.transitions += 1;
                }
            }
            ctx.states += 1;
            ctx.traces += 15;
            ctx.transitions += 3;
        }),
        family("writers", "display of every card into writers that fail after k bytes: prefix of the text, error reported", 52, |i, ctx| {
            struct W(String, usize);
            impl std::fmt::Write for W {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    if self.0.len() + s.len() > self.1 {
                        return Err(std::fmt::Error);
                    }
                    self.0.push_str(s);
                    Ok(())
                }
            }
            let shown = format!("[ {}{} ]", RANK_CHARS[i / 4], SUIT_SYMBOLS[i % 4]);
            for room in 0..=shown.len() {
                let mut w = W(String::new(), room);
                let r = std::fmt::write(&mut w, format_args!("{}", refm::card(i)));
                ensure!(shown.starts_with(&w.0), "display of {} wrote {:?}", refm::text(i), w.0);
                ensure!(r.is_ok() == (w.0 == shown), "display of {} into a full writer reported {r:?} after {:?}", refm::text(i), w.0);
                ctx.transitions += 2;
                ctx.traces += 1;
                ctx.states += 1;
            }
        }),
        crate::p_calls::c10_writers(),
    ]
}

// ---------------------------------------------------------------- C11

const TOKENS: [&str; 7] = ["As", "2c", "", "10c", "as", "AS", "\u{e9}"];

#[derive(Clone)]
struct Spy {
    text: &'static str,
    looked: Rc<Cell<usize>>,
}

impl AsRef<str> for Spy {
    fn as_ref(&self) -> &str {
        self.looked.set(self.looked.get() + 1);
        self.text
    }
}

/// A source that counts how many items were taken from it.
struct Source {
    items: Vec<Spy>,
    at: usize,
    taken: Rc<Cell<usize>>,
    hint: u8,
}

impl Iterator for Source {
    type Item = Spy;
    fn next(&mut self) -> Option<Spy> {
        let x = self.items.get(self.at).cloned();
        if x.is_some() {
            self.at += 1;
            self.taken.set(self.taken.get() + 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.at;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + 3)),
            _ => (n, None),
        }
    }
}

const TERMINALS: [&str; 13] = [
    "next until None", "collect", "try_collect::<Vec>", "fold", "count", "last", "collect::<Result<Vec>>", "for_each",
    "skip(1).collect", "step_by(2).collect", "try_collect::<Box<[Card]>>", "partition", "find first error then collect",
];

/// One execution: `ops` (0 next, 1..=3 nth(k), 4 size_hint, 5 by_ref().take(2), 6 by_ref fold-until) then a terminal.
fn run_batch(list: &[usize], ops: &[u8], terminal: usize, hint: u8, ctx: &mut Ctx) {
    let taken = Rc::new(Cell::new(0));
    let looked = Rc::new(Cell::new(0));
    let src = Source {
        items: list.iter().map(|&t| Spy { text: TOKENS[t], looked: looked.clone() }).collect(),
        at: 0,
        taken: taken.clone(),
        hint,
    };
    let want: Vec<Result<Card, ParseCardError>> = list.iter().map(|&t| model_parse(TOKENS[t]).map(refm::card)).collect();
    let say = |what: String| -> ! {
        fail(format!(
            "batch {:?}, operations {ops:?} (0 next, 1-3 nth, 4 size_hint, 5 take(2)), then {}: {what}",
            list.iter().map(|&t| TOKENS[t]).collect::<Vec<_>>(),
            TERMINALS[terminal]
        ))
    };
    let n = list.len();
    let mut pos = 0usize;
    let mut it = Card::parse_to_iter(src);
    if taken.get() != 0 || looked.get() != 0 {
        say("strings were taken before any was asked for".into());
    }
    for &o in ops {
        match o {
            0 => {
                let g = it.next();
                if g.as_ref() != want.get(pos) {
                    say(format!("next gave {g:?} at position {pos}"));
                }
                pos = (pos + 1).min(n);
            }
            1..=3 => {
                let k = o as usize;
                let g = it.nth(k);
                if g.as_ref() != want.get(pos + k) {
                    say(format!("nth({k}) at position {pos} gave {g:?}"));
                }
                pos = (pos + k + 1).min(n);
            }
            4 => {
                let (lo, hi) = it.size_hint();
                let left = n - pos;
                if lo > left || hi.is_some_and(|h| h < left) || (hint == 0 && (lo, hi) != (left, Some(left))) {
                    say(format!("size bounds {:?} with {left} left", (lo, hi)));
                }
            }
            _ => {
                let g: Vec<_> = it.by_ref().take(2).collect();
                let end = (pos + 2).min(n);
                if g[..] != want[pos..end] {
                    say(format!("take(2) at position {pos} gave {g:?}"));
                }
                pos = end;
            }
        }
        if taken.get() != pos {
            say(format!("{} strings taken from the source after {pos} were asked for", taken.get()));
        }
        ctx.transitions += 2;
    }
    let rest = &want[pos..];
    let firsterr = rest.iter().find_map(|r| r.as_ref().err());
    let cards: Vec<Card> = rest.iter().filter_map(|r| r.as_ref().ok().copied()).collect();
    macro_rules! need {
        ($g:expr, $w:expr) => {{
            let (g, w) = ($g, $w);
            if g != w {
                say(format!("gave {g:?}, expected {w:?}"));
            }
        }};
    }
    match terminal {
        0 => {
            for w in rest {
                need!(it.next(), Some(w.clone()));
            }
            for _ in 0..3 {
                need!(it.next(), None);
            }
        }
        1 => need!(it.collect::<Vec<_>>(), rest.to_vec()),
        2 => need!(it.try_collect::<Vec<Card>>(), firsterr.map_or(Ok(cards.clone()), |e| Err(e.clone()))),
        3 => need!(
            it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            }),
            rest.to_vec()
        ),
        4 => need!(it.count(), rest.len()),
        5 => need!(it.last(), rest.last().cloned()),
        6 => need!(it.collect::<Result<Vec<Card>, _>>(), firsterr.map_or(Ok(cards.clone()), |e| Err(e.clone()))),
        7 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            need!(v, rest.to_vec());
        }
        8 => need!(it.skip(1).collect::<Vec<_>>(), rest.iter().skip(1).cloned().collect::<Vec<_>>()),
        9 => need!(it.step_by(2).collect::<Vec<_>>(), rest.iter().step_by(2).cloned().collect::<Vec<_>>()),
        10 => need!(it.try_collect::<Box<[Card]>>(), firsterr.map_or(Ok(cards.clone().into_boxed_slice()), |e| Err(e.clone()))),
        11 => {
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|r| r.is_ok());
            need!(a, rest.iter().filter(|r| r.is_ok()).cloned().collect::<Vec<_>>());
            need!(b, rest.iter().filter(|r| r.is_err()).cloned().collect::<Vec<_>>());
        }
        _ => {
            need!(it.find(|r| r.is_err()).map(|r| r.unwrap_err()), firsterr.cloned());
            let k = rest.iter().position(|r| r.is_err()).map_or(rest.len(), |p| p + 1);
            need!(it.collect::<Vec<_>>(), rest[k..].to_vec());
        }
    }
    ctx.transitions += 1;
    ctx.traces += 1;
}

fn list_of(mut code: usize, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let t = code % TOKENS.len();
            code /= TOKENS.len();
            t
        })
        .collect()
}

pub fn c11(env: &Env) -> Vec<Family<'_>> {
    let k = TOKENS.len();
    let mut v = vec![];
    for (name, lens, depth) in [
        ("short-batches-long-histories", 0..=3usize, if env.thorough() { 5 } else { 4 }),
        ("longer-batches", 4..=if env.thorough() { 6usize } else { 5 }, if env.thorough() { 3 } else { 2 }),
    ] {
        let lists: Vec<Vec<usize>> = lens.clone().flat_map(|n| (0..k.pow(n as u32)).map(move |c| list_of(c, n))).collect();
        let per = 64;
        let chunks = lists.len().div_ceil(per);
        v.push(
            family(
                name,
                format!("every list of {lens:?} strings over {TOKENS:?} x every sequence of up to {depth} operations (next, nth(1..3), size bounds, take) x every one of {} ways to finish x source size bounds exact/loose/unknown", TERMINALS.len()),
                chunks,
                move |c, ctx| {
                    for (x, list) in lists.iter().enumerate().skip(c * per).take(per) {
                        for d in 0..=depth {
                            for code in 0..6usize.pow(d as u32) {
                                let mut y = code;
                                let ops: Vec<u8> = (0..d)
                                    .map(|_| {
                                        let o = (y % 6) as u8;
                                        y /= 6;
                                        o
                                    })
                                    .collect();
                                for t in 0..TERMINALS.len() {
                                    ctx.note((x as u64) << 32 | (code * 16 + t) as u64);
                                    run_batch(list, &ops, t, ((code + t) % 4) as u8, ctx);
                                    if d == 0 || ops.contains(&4) {
                                        run_batch(list, &ops, t, 0, ctx);
                                    }
                                }
                                ctx.states += 1;
                            }
                        }
                        ctx.sample(|| format!("{:?}", list.iter().map(|&t| TOKENS[t]).collect::<Vec<_>>()));
                        ctx.outcome(x as u64);
                    }
                },
            )
            .describe(|n| format!("batch number {} history {}", n >> 32, n & 0xffff_ffff)),
        );
    }
    v.push(family("sources", "every list of up to 4 strings from each kind of source: &[&str], Vec<&str>, Vec<String>, array, split_whitespace, boxed iterator, Option, chained, repeated for ever", 57, move |c, ctx| {
        // lists of length up to 4, dealt to 57 chunks
        for n in 0..=4usize {
            for code in (0..k.pow(n as u32)).filter(|x| x % 57 == c) {
                let list = list_of(code, n);
                let texts: Vec<&str> = list.iter().map(|&t| TOKENS[t]).collect();
                let owned: Vec<String> = texts.iter().map(|s| s.to_string()).collect();
                let want: Vec<_> = texts.iter().map(|t| model_parse(t).map(refm::card)).collect();
                ctx.note((n * 10_000 + code) as u64);
                macro_rules! is {
                    ($how:expr, $e:expr) => {{
                        let g: Vec<_> = $e.collect();
                        ensure!(g == want, "{texts:?} parsed from {} gives {g:?}", $how);
                        ctx.transitions += 1;
                        ctx.traces += 1;
                    }};
                }
                is!("&[&str]", Card::parse_to_iter(&texts[..]));
                is!("Vec<&str>", Card::parse_to_iter(texts.clone()));
                is!("&Vec<&str>", Card::parse_to_iter(&texts));
                is!("Vec<String>", Card::parse_to_iter(owned.clone()));
                is!("&[String]", Card::parse_to_iter(&owned[..]));
                is!("iter().map", Card::parse_to_iter(owned.iter().map(|s| s.as_str())));
                is!("Box<dyn Iterator>", Card::parse_to_iter(Box::new(owned.clone().into_iter()) as Box<dyn Iterator<Item = String>>));
                is!("Cow", Card::parse_to_iter(texts.iter().map(|s| std::borrow::Cow::Borrowed(*s)).map(|c: std::borrow::Cow<str>| c.into_owned())));
                is!("chain of two", Card::parse_to_iter(texts[..n / 2].iter().chain(texts[n / 2..].iter())));
                is!("reversed twice", Card::parse_to_iter(texts.iter().rev().collect::<Vec<_>>().into_iter().rev()));
                if n == 3 {
                    is!("[&str; 3]", Card::parse_to_iter([texts[0], texts[1], texts[2]]));
                    is!("&[&str; 3]", Card::parse_to_iter(&[texts[0], texts[1], texts[2]]));
                }
                if n == 1 {
                    is!("Option", Card::parse_to_iter(Some(texts[0])));
                    let g: Vec<_> = Card::parse_to_iter(std::iter::repeat(texts[0])).take(300).collect();
                    ensure!(g.len() == 300 && g.iter().all(|x| *x == want[0]), "endless source of {:?}", texts[0]);
                    let mut it = Card::parse_to_iter(std::iter::repeat(texts[0]));
                    ensure!(it.nth(70_000).as_ref() == Some(&want[0]), "endless source of {:?}, nth(70000)", texts[0]);
                    ctx.traces += 2;
                }
                if texts.iter().all(|t| !t.is_empty()) {
                    let joined = texts.join(" \t\u{2003}");
                    is!("split_whitespace", Card::parse_to_iter(joined.split_whitespace()));
                }
                ctx.states += 1;
            }
        }
    }).describe(|n| format!("list code {n}")));
    let alike: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for (x, y) in [("As", "2c"), ("Td", "9d")] {
            let (r, u) = x.split_at(1);
            for t in [
                x.into(), y.into(), format!("{x}{x}"), format!("{x}{y}"), format!("{r}{x}"), format!("{u}{x}"), format!("{x}{r}"), format!("{x}{u}"),
                format!(" {x}"), format!("{x} "), format!("{r} {u}"), r.into(), u.into(), format!("{u}{r}"), x.to_lowercase(), x.to_uppercase(),
                format!("{r}{}", &y[1..]), format!("{}{u}", &y[..1]), format!("{x}\0"), format!("{r}\u{173}"), format!("\u{141}{u}"), format!("{x},"), format!("1{x}"),
            ] {
                if !v.contains(&t) {
                    v.push(t);
                }
            }
        }
        v.push(String::new());
        v
    };
    let long = env.thorough();
    v.push(family(
        "alike-strings",
        format!("every list of up to {} of {} strings that resemble one another (doubled, extended, reversed, in another case): each gets its own answer", if long { 4 } else { 3 }, alike.len()),
        alike.len() * alike.len(),
        move |c, ctx| {
            let n = alike.len();
            let want: Vec<_> = alike.iter().map(|t| model_parse(t).map(refm::card)).collect();
            let mut one = |l: &[usize]| {
                let mut it = Card::parse_to_iter(l.iter().map(|&i| alike[i].as_str()));
                for &i in l {
                    let g = it.next();
                    if g.as_ref() != Some(&want[i]) {
                        fail(format!("batch {:?}: {:?} gives {g:?}", l.iter().map(|&i| &alike[i]).collect::<Vec<_>>(), alike[i]));
                    }
                }
                ensure!(it.next().is_none(), "batch {:?} goes on after its end", l.iter().map(|&i| &alike[i]).collect::<Vec<_>>());
                let g = Card::parse_to_iter(l.iter().map(|&i| &alike[i])).try_collect::<Vec<_>>();
                let w: Result<Vec<Card>, _> = l.iter().map(|&i| want[i].clone()).collect();
                ensure!(g == w, "collecting {:?} gives {g:?}, expected {w:?}", l.iter().map(|&i| &alike[i]).collect::<Vec<_>>());
                ctx.traces += 2;
                ctx.transitions += 1 + l.len() as u64;
                ctx.states += 1;
            };
            let (a, b) = (c / n, c % n);
            if b == 0 {
                one(&[a]);
            }
            one(&[a, b]);
            for x in 0..n {
                one(&[a, b, x]);
                if long {
                    for y in 0..n {
                        one(&[a, b, x, y]);
                    }
                }
            }
        },
    ));
    v.push(family("long-batches", "the whole deck and 3,000 strings with an error at every tenth / every single position", 60, move |c, ctx| {
        let mut texts: Vec<String> = (0..52).map(refm::text).collect();
        if c < 52 {
            for bad in ["", "Ax", "xs", "10s"] {
                let mut t = texts.clone();
                t[c] = bad.into();
                let want: Vec<_> = t.iter().map(|t| model_parse(t).map(refm::card)).collect();
                let got: Vec<_> = Card::parse_to_iter(&t).collect();
                ensure!(got == want, "deck with {bad:?} at position {c}");
                ensure!(Card::parse_to_iter(&t).try_collect::<Vec<_>>() == Err(model_parse(bad).unwrap_err()), "collecting the deck with {bad:?} at position {c}");
                ctx.traces += 2;
                ctx.transitions += 53;
            }
        } else {
            let k = c - 51;
            let n = 375 * k;
            while texts.len() < n {
                let i = texts.len();
                texts.push(if i % 10 == k { "zz".into() } else { refm::text(splitmix(i as u64) as usize % 52) });
            }
            texts.truncate(n);
            let want: Vec<_> = texts.iter().map(|t| model_parse(t).map(refm::card)).collect();
            let got: Vec<_> = Card::parse_to_iter(&texts).collect();
            ensure!(got == want, "batch of {n} strings");
            ensure!(Card::parse_to_iter(&texts).count() == n, "count of {n} strings");
            ctx.traces += 2;
            ctx.transitions += n as u64 + 1;
        }
        ctx.states += 1;
    }));
    v.push(crate::p_calls::c11_calls());
    v
}

// ---------------------------------------------------------------- C12

const DECK_OPS: usize = 9;

/// Apply one operation to a live deck; `seen` collects what it gave out, in order.
fn deck_op(o: usize, it: &mut dyn Iterator<Item = Card>, pos: &mut usize, order: &[Card], say: &dyn Fn(String) -> String, ctx: &mut Ctx) {
    let left = 52 - *pos;
    match o {
        0 => {
            let g = it.next();
            ensure!(g.as_ref() == order.get(*pos), "{}", say(format!("next at position {pos} gave {g:?}")));
            *pos = (*pos + 1).min(52);
        }
        1..=5 => {
            let k = [1, 4, 12, 51, 52][o - 1];
            let g = it.nth(k);
            ensure!(g.as_ref() == order.get(*pos + k), "{}", say(format!("nth({k}) at position {pos} gave {g:?}")));
            *pos = (*pos + k + 1).min(52);
        }
        6 => {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}", say(format!("size bounds {:?} with {left} cards left", (lo, hi))));
        }
        7 => {
            let g: Vec<Card> = it.take(7).collect();
            let end = (*pos + 7).min(52);
            ensure!(g[..] == order[*pos..end], "{}", say(format!("take(7) at position {pos} gave {} cards", g.len())));
            *pos = end;
        }
        _ => {
            // stop half-way through a for loop
            let mut g = vec![];
            for c in it {
                g.push(c);
                if g.len() == 13 {
                    break;
                }
            }
            let end = (*pos + 13).min(52);
            ensure!(g[..] == order[*pos..end], "{}", say(format!("loop at position {pos} gave {} cards", g.len())));
            *pos = end;
        }
    }
    ctx.transitions += 1;
}

pub fn c12(env: &Env) -> Vec<Family<'_>> {
    let depth = if env.thorough() { 6 } else { 5 };
    let depth2 = if env.thorough() { 4 } else { 3 };
    vec![
        family("whole-deck", "200 complete decks: 52 different cards, the same order every time; every way of consuming it whole", 200, |c, ctx| {
            ctx.note(c as u64);
            let first: Vec<Card> = deck::generate().collect();
            let v: Vec<Card> = match c % 10 {
                0 => deck::generate().collect(),
                1 => {
                    let mut v = vec![];
                    let mut it = deck::generate();
                    while let Some(x) = it.next() {
                        v.push(x);
                    }
                    v
                }
                2 => deck::generate().fold(vec![], |mut v, c| {
                    v.push(c);
                    v
                }),
                3 => {
                    let mut v = vec![];
                    deck::generate().for_each(|c| v.push(c));
                    v
                }
                4 => {
                    let mut v = vec![];
                    v.extend(deck::generate());
                    v
                }
                5 => {
                    let mut it = deck::generate();
                    let a: Vec<_> = it.by_ref().take(c % 53).collect();
                    a.into_iter().chain(it).collect()
                }
                6 => {
                    let mut it = deck::generate().peekable();
                    let mut v = vec![];
                    while it.peek().is_some() {
                        v.extend(it.next());
                    }
                    v
                }
                7 => deck::generate().collect::<std::collections::VecDeque<_>>().into_iter().collect(),
                8 => std::thread::spawn(|| deck::generate().collect::<Vec<_>>()).join().unwrap_or_else(|_| fail("deck generation panicked on another thread".into())),
                _ => deck::generate().collect::<Box<[Card]>>().into_vec(),
            };
            for i in 0..52 {
                let n = v.iter().filter(|&&x| x == refm::card(i)).count();
                ensure!(n == 1, "a generated deck holds {} {n} times", refm::text(i));
                ctx.transitions += 1;
            }
            ensure!(v.len() == 52, "a generated deck has {} cards", v.len());
            ensure!(v == first, "two generated decks are in different orders (way of consuming {})", c % 10);
            ensure!(deck::generate().count() == 52, "a generated deck counts {}", deck::generate().count());
            ensure!(deck::generate().last() == first.last().copied(), "last card differs");
            ctx.states += 1;
            ctx.traces += 4;
            ctx.transitions += 4;
        }),
        family("one-deck-histories", format!("every sequence of {depth} operations (next, nth(1,4,12,51,52), size bounds, take, broken-off loop), then the rest, then four calls after the end"), DECK_OPS * DECK_OPS, move |c, ctx| {
            let order: Vec<Card> = deck::generate().collect();
            if order.len() != 52 {
                fail(format!("a generated deck has {} cards", order.len()));
            }
            for code in 0..DECK_OPS.pow(depth as u32 - 2) {
                let mut ops = vec![c / DECK_OPS, c % DECK_OPS];
                let mut y = code;
                for _ in 2..depth {
                    ops.push(y % DECK_OPS);
                    y /= DECK_OPS;
                }
                ctx.note((c * 100_000 + code) as u64);
                let say = |s: String| format!("deck operations {ops:?}: {s}");
                let mut it = deck::generate();
                let mut pos = 0;
                for &o in &ops {
                    deck_op(o, &mut it, &mut pos, &order, &say, ctx);
                }
                let rest: Vec<Card> = it.by_ref().collect();
                ensure!(rest[..] == order[pos..], "{}", say(format!("{} cards left instead of {}", rest.len(), 52 - pos)));
                for _ in 0..4 {
                    let g = it.next();
                    ensure!(g.is_none(), "{}", say(format!("{g:?} after the end")));
                }
                let (lo, _) = it.size_hint();
                ensure!(lo == 0, "{}", say(format!("at least {lo} cards announced after the end")));
                ctx.traces += 1;
                ctx.states += 1;
                ctx.transitions += 6;
            }
        }),
        family("two-deck-histories", format!("every sequence of {depth2} operations on each of two live decks, interleaved"), (2 * DECK_OPS).pow(2), move |c, ctx| {
            let order: Vec<Card> = deck::generate().collect();
            if order.len() != 52 {
                fail(format!("a generated deck has {} cards", order.len()));
            }
            let al = 2 * DECK_OPS;
            let len = depth2 + 1;
            for code in 0..al.pow(len as u32 - 2) {
                let mut ops = vec![c / al, c % al];
                let mut y = code;
                for _ in 2..len {
                    ops.push(y % al);
                    y /= al;
                }
                ctx.note((c * 100_000 + code) as u64);
                let say = |s: String| format!("operations {ops:?} on two decks: {s}");
                let (mut a, mut b) = (deck::generate(), deck::generate());
                let (mut pa, mut pb) = (0, 0);
                for &o in &ops {
                    if o % 2 == 0 {
                        deck_op(o / 2, &mut a, &mut pa, &order, &say, ctx);
                    } else {
                        deck_op(o / 2, &mut b, &mut pb, &order, &say, ctx);
                    }
                }
                ensure!(a.eq(order[pa..].iter().copied()), "{}", say("first deck ends wrong".into()));
                ensure!(b.eq(order[pb..].iter().copied()), "{}", say("second deck ends wrong".into()));
                ctx.traces += 1;
                ctx.states += 1;
                ctx.transitions += 2;
            }
        }),
    ]
}

// ---------------------------------------------------------------- C17

fn check_ord<T: Ord + Copy + std::fmt::Debug>(a: T, b: T, want: Ordering, ctx: &mut Ctx) {
    macro_rules! is {
        ($e:expr, $w:expr) => {{
            let (g, w) = ($e, $w);
            ensure!(g == w, "with a = {a:?} and b = {b:?}: {} is {g:?}, ranks say {w:?}", stringify!($e));
            ctx.transitions += 1;
        }};
    }
    is!(a.cmp(&b), want);
    is!(a.partial_cmp(&b), Some(want));
    is!(a < b, want == Ordering::Less);
    is!(a <= b, want != Ordering::Greater);
    is!(a > b, want == Ordering::Greater);
    is!(a >= b, want != Ordering::Less);
}

pub fn c17(env: &Env) -> Vec<Family<'_>> {
    let sizes = if env.thorough() { 8 } else { 7 };
    vec![
        family("rank-pairs", "all 169 ordered pairs of ranks", 13, |i, ctx| {
            for j in 0..13 {
                ctx.note((i * 13 + j) as u64);
                check_ord(RANKS[i], RANKS[j], i.cmp(&j), ctx);
                ensure!((RANKS[i] == RANKS[j]) == (i == j), "{:?} == {:?}", RANKS[i], RANKS[j]);
                ensure!(RANKS[i].max(RANKS[j]) == RANKS[i.max(j)] && RANKS[i].min(RANKS[j]) == RANKS[i.min(j)], "max/min of {:?} and {:?}", RANKS[i], RANKS[j]);
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 2;
            }
        }),
        family("card-pairs", "all 2,704 ordered pairs of cards", 52, |i, ctx| {
            for j in 0..52 {
                ctx.note((i * 52 + j) as u64);
                let (a, b) = (refm::card(i), refm::card(j));
                let want = (i / 4).cmp(&(j / 4));
                check_ord(a, b, want, ctx);
                ensure!(a.max(b).rank() == RANKS[(i / 4).max(j / 4)], "max of {} and {}", refm::text(i), refm::text(j));
                ensure!(a.min(b).rank() == RANKS[(i / 4).min(j / 4)], "min of {} and {}", refm::text(i), refm::text(j));
                check_ord(std::cmp::Reverse(b), std::cmp::Reverse(a), want, ctx);
                check_ord([a, a], [b, a], want, ctx);
                check_ord((a, 1), (b, 1), want, ctx);
                check_ord(Some(a), Some(b), want, ctx);
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 2;
            }
        }),
        family("card-triples", "all 140,608 ordered triples: sorting, maximum, minimum, clamping", 52, |i, ctx| {
            for j in 0..52 {
                for k in 0..52 {
                    let ids = [i, j, k];
                    let mut v = ids.map(refm::card);
                    let hi = v.iter().max().unwrap().rank();
                    let lo = v.iter().min().unwrap().rank();
                    ensure!(hi == RANKS[ids.map(|x| x / 4).into_iter().max().unwrap()], "max of {}", refm::hand_text(&ids));
                    ensure!(lo == RANKS[ids.map(|x| x / 4).into_iter().min().unwrap()], "min of {}", refm::hand_text(&ids));
                    v.sort();
                    check_sorted(&ids, &v, true);
                    if i / 4 <= k / 4 {
                        let c = refm::card(j).clamp(refm::card(i), refm::card(k)).rank();
                        ensure!(c == RANKS[(j / 4).clamp(i / 4, k / 4)], "{} clamped between {} and {} is a {c:?}", refm::text(j), refm::text(i), refm::text(k));
                        let c = RANKS[j / 4].clamp(RANKS[i / 4], RANKS[k / 4]);
                        ensure!(c == RANKS[(j / 4).clamp(i / 4, k / 4)], "{:?} clamped between {:?} and {:?} is {c:?}", RANKS[j / 4], RANKS[i / 4], RANKS[k / 4]);
                    }
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.transitions += 4;
                }
            }
        }),
        family("sorting", format!("every order of {} hands of up to {sizes} cards with repeated ranks: stable, unstable, reversed sorts", sizes), sizes, move |n, ctx| {
            let base = [48usize, 1, 49, 30, 2, 31, 50, 0];
            let n = n + 1;
            for p in permutations(n) {
                let ids: Vec<usize> = p.iter().map(|&i| base[i]).collect();
                let mut a: Vec<Card> = ids.iter().map(|&i| refm::card(i)).collect();
                a.sort();
                check_sorted(&ids, &a, true);
                let mut b: Vec<Card> = ids.iter().map(|&i| refm::card(i)).collect();
                b.sort_unstable();
                check_sorted(&ids, &b, false);
                let mut c: Vec<Card> = ids.iter().map(|&i| refm::card(i)).collect();
                c.sort_by(|x, y| y.cmp(x));
                c.reverse();
                check_sorted(&ids, &c, false);
                let h: Vec<Card> = ids.iter().map(|&i| refm::card(i)).collect::<std::collections::BinaryHeap<_>>().into_sorted_vec();
                check_sorted(&ids, &h, false);
                ctx.states += 1;
                ctx.traces += 4;
                ctx.transitions += 4;
            }
        }),
        family("whole-deck-sorting", "the deck in 50 orders", 50, |k, ctx| {
            let mut ids: Vec<usize> = (0..52).collect();
            scramble(&mut ids, k as u64);
            let mut v: Vec<Card> = ids.iter().map(|&i| refm::card(i)).collect();
            v.sort();
            check_sorted(&ids, &v, true);
            v.sort_unstable_by(|a, b| b.partial_cmp(a).unwrap());
            v.reverse();
            check_sorted(&ids, &v, false);
            ctx.states += 1;
            ctx.traces += 2;
            ctx.transitions += 2;
        }),
    ]
}

fn check_sorted(ids: &[usize], v: &[Card], stable: bool) {
    let mut want: Vec<usize> = ids.to_vec();
    want.sort_by_key(|i| i / 4);
    let got: Vec<usize> = v.iter().map(|c| (0..52).find(|&i| refm::card(i) == *c).unwrap()).collect();
    ensure!(got.iter().map(|i| i / 4).eq(want.iter().map(|i| i / 4)), "{} sorts to {}", refm::hand_text(ids), refm::hand_text(&got));
    let (mut x, mut y) = (got.clone(), want.clone());
    x.sort();
    y.sort();
    ensure!(x == y, "sorting {} lost or changed cards: {}", refm::hand_text(ids), refm::hand_text(&got));
    // cards of one rank are equal to the ordering, so a stable sort keeps them in place
    ensure!(!stable || got == want, "stable sort of {} gives {}: cards of one rank were reordered", refm::hand_text(ids), refm::hand_text(&got));
}
