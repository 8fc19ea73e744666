//! C18: the card macros. A separate program, so that macros that no longer
//! expand to compiling code are told apart from everything else.

use std::{borrow::Cow, cell::Cell, rc::Rc, sync::Arc};

use mc::{
    cli,
    engine::{fail, family, Ctx, Family},
    ensure,
    env::{permutations, splitmix, Env},
    refm::{self, hand_text, model_parse},
};
use poker::{box_cards, card, cards, Card, ParseCardError};

mod mac_gen;
use mac_gen::*;

fn want_cards(ids: &[u8]) -> Vec<Card> { ids.iter().map(|&i| refm::card(i as usize)).collect() }

fn judge(ctx: &mut Ctx, form: &str, ids: &[u8], got: &[Card]) {
    let want = want_cards(ids);
    ensure!(got == want, "{} builds {got:?} instead of {want:?}", cut(form));
    for (g, &i) in got.iter().zip(ids) {
        ensure!(
            g.rank() == refm::RANKS[i as usize / 4] && g.suit() == refm::SUITS[i as usize % 4],
            "{} builds a card of another rank or suit: {g:?}",
            cut(form)
        );
    }
    ctx.states += 1;
    ctx.transitions += ids.len() as u64;
    ctx.traces += 1;
    ctx.outcome(ids.iter().fold(0, |h, &i| splitmix(h ^ i as u64 + 1)));
}

fn judge_parsed(ctx: &mut Ctx, form: &str, words: &[&str], got: &[Result<Card, ParseCardError>]) {
    ensure!(got.len() == words.len(), "{} gives {} results for {} words: {got:?}", cut(form), got.len(), words.len());
    for (k, (g, w)) in got.iter().zip(words).enumerate() {
        let m = model_parse(w).map(refm::card);
        ensure!(*g == m, "{}: item {k} ({w:?}) gives {g:?} instead of {m:?}", cut(form));
    }
    ctx.states += 1;
    ctx.transitions += words.len() as u64 + 1;
    ctx.traces += 1;
}

fn cut(s: &str) -> String {
    if s.chars().count() > 200 {
        format!("{}...", s.chars().take(200).collect::<String>())
    } else {
        s.into()
    }
}

fn table<'a>(name: &'static str, bound: &str, t: &'static [Const]) -> Family<'a> {
    family(name, bound, 1, move |_, ctx| {
        for (k, (form, ids, got)) in t.iter().enumerate() {
            ctx.note(k as u64);
            judge(ctx, form, ids, got);
        }
        ctx.sample(|| t[t.len() / 2].0.to_string());
    })
}

/// The characters of Unicode property White_Space.
const SPACES: [char; 25] = [
    '\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

/// Look like separators, are not white space.
const NOT_SPACES: [char; 14] = [
    ',', ';', '|', '/', '\\', '-', '_', '\0', '\u{8}', '\u{1b}', '\u{7f}', '\u{180e}', '\u{200b}', '\u{feff}',
];

fn words(s: &str) -> Vec<&str> { s.split(|c| SPACES.contains(&c)).filter(|w| !w.is_empty()).collect() }

const TOKENS: [&str; 14] =
    ["As", "Kh", "2c", "Td", "9s", "as", "AS", "1s", "", "A", "As ", " As", "10s", "\u{c5}s"];

/// Names that a caller may well have of its own.
mod foreign {
    #![allow(dead_code, non_upper_case_globals)]
    pub struct Card;
    pub enum Rank { Ace, King }
    pub enum Suit { Spades, Hearts }
    pub const Ace: &str = "Two";
    pub const Spades: &str = "Clubs";
    pub mod card {}
    pub fn new() {}

    const ONE: ::poker::Card = ::poker::card!(Ace, Spades);
    static MANY: [::poker::Card; 2] = ::poker::cards!(Ace of Spades, King of Hearts);
    const fn constant() -> [::poker::Card; 2] { ::poker::cards!(King, Hearts; Ace, Spades) }
    const AT: ::poker::Card = constant()[1];

    pub fn all() -> Vec<::poker::Card> {
        let (cards, card_slice, rank, suit, of) = (0, 1, 2, 3, 4);
        let mut v = vec![ONE, AT];
        v.extend(MANY);
        v.extend(constant());
        v.push(::poker::card!("As").unwrap());
        v.push(::poker::card!(Ace of Spades));
        v.extend(::poker::cards!("As Kh").map(|r| r.unwrap()));
        v.extend(::poker::cards!("As", "Kh").map(|r| r.unwrap()));
        v.extend(::poker::box_cards!(MANY, MANY[1..]).iter());
        assert_eq!(cards + card_slice + rank + suit + of, 10);
        v
    }
}

/// One value of each kind of argument.
macro_rules! with_kind {
    ($k:expr, $v:expr, $x:ident => $body:expr) => {{
        let v: &Vec<Card> = &$v;
        match $k {
            0 => { let $x = &v[..]; $body }
            1 => { let $x = v.clone(); $body }
            2 => { let $x = v; $body }
            3 => { let $x: Box<[Card]> = v.clone().into(); $body }
            4 => { let $x: Rc<[Card]> = v.clone().into(); $body }
            5 => { let $x: Arc<Vec<Card>> = v.clone().into(); $body }
            6 => { let $x: Cow<[Card]> = v[..].into(); $body }
            7 => match v[..] {
                [] => { let $x: [Card; 0] = []; $body }
                [a] => { let $x = [a]; $body }
                [a, b] => { let $x = &[a, b]; $body }
                [a, b, c] => { let $x = [a, b, c]; $body }
                _ => { let $x: [Card; 4] = v[..].try_into().unwrap(); $body }
            },
            _ => unreachable!(),
        }
    }};
}
const KINDS: usize = 8;

fn c18<'a>(env: &'a Env) -> Vec<Family<'a>> {
    vec![
        table("one-name", "all 52 cards in every form of names with and without trailing separators, as constants", ONE),
        table("two-names-comma", "all 2,704 ordered pairs, `Rank, Suit; Rank, Suit` form, as constants", PAIRS_NAMES),
        table("two-names-of", "all 2,704 ordered pairs, `Rank of Suit, Rank of Suit` form, as constants", PAIRS_OF),
        table("name-lists", "lists of every length 1 to 52, three orders, both forms, with and without trailing separator, as constants", LISTS),
        family("run-time", "all 52 cards and lists of many lengths, built at run time", 1, |_, ctx| {
            at_run_time(&mut |form, ids, got| judge(ctx, form, ids, got));
        }),
        family("string-literals", "all 52 cards and lists of every length 1 to 52, three orders, as string literals", 1, |_, ctx| {
            strings(&mut |form, ids, got| {
                let w: Vec<String> = ids.iter().map(|&i| refm::text(i as usize)).collect();
                judge_parsed(ctx, &format!("{form} {w:?}"), &w.iter().map(|s| &s[..]).collect::<Vec<_>>(), &got);
            });
        }),
        family("string-expressions", "card! on every string of up to 3 characters of 'A', 's', 'T', 'c', ' ', 'x', '\u{e9}', as &str, String, &String, Box, Rc, Cow, slice, block, concatenation and call", 1, |_, ctx| {
            let alpha = ['A', 's', 'T', 'c', ' ', 'x', '\u{e9}'];
            let mut all = vec![String::new()];
            let mut last = all.clone();
            for _ in 0..3 {
                last = last.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
                all.extend(last.iter().cloned());
            }
            for s in &all {
                let r: &str = s;
                let o: String = s.clone();
                let (b, rc, cow): (Box<str>, Rc<str>, Cow<str>) = (r.into(), r.into(), r.into());
                let wide = format!("<{s}>");
                let calls = Cell::new(0);
                let call = || {
                    calls.set(calls.get() + 1);
                    s.clone()
                };
                let got = [
                    card!(r), card!(o), card!(&o), card!(b), card!(rc), card!(cow), card!(&wide[1..wide.len() - 1]),
                    card!({ r }), card!("".to_string() + r), card!(call()), card!(&*call()), card!(if true { r } else { "As" }),
                ];
                for g in &got {
                    judge_parsed(ctx, &format!("card!({s:?})"), &[r], std::slice::from_ref(g));
                }
                ensure!(calls.get() == 2, "card!(call()) calls {} times for two uses", calls.get());
            }
        }),
        family("string-lists", "all lists of 2 and 3 of the 52 two-character names and 14 tokens; longer lists of every length to 52 with one bad token in every place", 52 + TOKENS.len(), move |c, ctx| {
            let names: Vec<String> = (0..52).map(refm::text).collect();
            let toks: Vec<&str> = names.iter().map(|s| &s[..]).chain(TOKENS).collect();
            let a = toks[c];
            for (i, &b) in toks.iter().enumerate() {
                ctx.note((c * 100 + i) as u64);
                judge_parsed(ctx, &format!("cards!({a:?}, {b:?})"), &[a, b], &string_list(&[a, b]));
                let own = [a.to_string(), b.to_string()];
                judge_parsed(ctx, &format!("cards!(String {a:?}, {b:?})"), &[a, b], &string_list_owned(&own));
                for &d in &toks {
                    judge_parsed(ctx, &format!("cards!({a:?}, {b:?}, {d:?})"), &[a, b, d], &string_list(&[a, b, d]));
                }
            }
            if c < 52 {
                for n in 2..=52 {
                    for p in 0..n {
                        let mut l: Vec<&str> = (0..n).map(|k| &names[(c + k) % 52][..]).collect();
                        l[p] = TOKENS[5 + (p + c) % 9];
                        judge_parsed(ctx, &format!("cards! of {l:?}"), &l, &string_list(&l));
                        if n < 8 {
                            let own: Vec<String> = l.iter().map(|s| s.to_string()).collect();
                            judge_parsed(ctx, &format!("cards! of String {l:?}"), &l, &string_list_owned(&own));
                        }
                    }
                }
            }
        }),
        family("evaluated-once", "arguments with effects: every argument runs once, first to last", 1, |_, ctx| {
            let log = std::cell::RefCell::new(vec![]);
            let s = |i: usize| {
                log.borrow_mut().push(i);
                refm::text(i)
            };
            let got: Vec<_> = cards!(s(3), s(1), s(2)).collect();
            judge_parsed(ctx, "cards!(calls)", &["2c", "2h", "2d"], &got);
            ensure!(*log.borrow() == [3, 1, 2], "the arguments of cards! run as {:?}", log.borrow());
            log.borrow_mut().clear();
            let t = |i: usize| {
                log.borrow_mut().push(i);
                format!("{} {}", refm::text(i), refm::text(i + 1))
            };
            let kept = t(5);
            let got: Vec<_> = cards!({ log.borrow_mut().push(7); &kept }).collect();
            judge_parsed(ctx, "cards!(call)", &["3h", "3d"], &got);
            ensure!(*log.borrow() == [5, 7], "the argument of cards! runs as {:?}", log.borrow());
            log.borrow_mut().clear();
            let v = |i: usize, n: usize| {
                log.borrow_mut().push(i);
                (i..i + n).map(refm::card).collect::<Vec<_>>()
            };
            for n in permutations(4) {
                log.borrow_mut().clear();
                let got = box_cards!(v(0, n[0]), v(10, n[1]), v(20, n[2]), v(30, n[3]));
                let want: Vec<u8> = (0..4u8).flat_map(|k| (0..n[k as usize] as u8).map(move |j| k * 10 + j)).collect();
                judge(ctx, "box_cards! of calls", &want, &got);
                ensure!(*log.borrow() == [0, 10, 20, 30], "the arguments of box_cards! run as {:?}", log.borrow());
            }
        }),
        family("layouts", "one string: every string of up to 7 (thorough: 9) pieces out of two names, a bad word, ' ', tab, newline, ideographic space and ','; every white-space and look-alike character in every place around two names, in runs of up to 3", 8, move |c, ctx| {
            const P: [&str; 8] = ["As", "Kh", "1x", " ", "\t", "\n", "\u{3000}", ","];
            let depth = if env.thorough() { 9 } else { 7 };
            let mut stack = vec![(P[c].to_string(), 1)];
            let mut n = 0u64;
            while let Some((s, d)) = stack.pop() {
                n += 1;
                ctx.note(n);
                layout(ctx, &s);
                if d < depth {
                    for p in P {
                        stack.push((format!("{s}{p}"), d + 1));
                    }
                }
            }
            if c == 0 {
                layout(ctx, "");
                let all: Vec<char> = SPACES.into_iter().chain(NOT_SPACES).collect();
                for &a in &all {
                    for s in [format!("As{a}Kh"), format!("{a}As Kh"), format!("As Kh{a}"), format!("{a}"), format!("{a}As{a}Kh{a}")] {
                        layout(ctx, &s);
                    }
                    for &b in &all {
                        for s in [format!("As{a}{b}Kh"), format!("{a}As{b}Kh"), format!("As{a}Kh{b}"), format!("{a}{b}")] {
                            layout(ctx, &s);
                        }
                        for &d in &all {
                            layout(ctx, &format!("As{a}{b}{d}Kh"));
                            layout(ctx, &format!("{a}As{b}Kh{d}"));
                        }
                    }
                }
                // which characters separate, over all of Unicode
                for ch in (0..=0x10_ffffu32).filter_map(char::from_u32) {
                    let s = format!("2d{ch}3h");
                    layout(ctx, &s);
                }
            }
        }),
        family("join-shapes", "box_cards! of 2 to 4 slices of every length 0 to 6, of 5 to 7 slices of every length 0 to 2, of 8 to 12 slices of every length 0 to 1, with and without trailing comma; distinct cards and repeated cards", 11, |c, ctx| {
            let n = c + 2;
            let top = match n { 2..=4 => 6, 5..=7 => 2, _ => 1 };
            let deck = refm::deck();
            let mut len = vec![0usize; n];
            loop {
                for (shift, stride) in [(0, 1), (7, 0), (3, 5)] {
                    // distinct cards, one card over and over, mixed
                    let mut at = 0;
                    let mut want = vec![];
                    let mut rows: Vec<Vec<Card>> = vec![];
                    for &l in &len {
                        let ids: Vec<u8> = (at..at + l).map(|k| ((shift + k * stride) % 52) as u8).collect();
                        at += l;
                        rows.push(ids.iter().map(|&i| deck[i as usize]).collect());
                        want.extend(ids);
                    }
                    let s: Vec<&[Card]> = rows.iter().map(|r| &r[..]).collect();
                    for trailing in [false, true] {
                        judge(ctx, "box_cards!", &want, &join(&s, trailing));
                    }
                }
                let Some(p) = len.iter().position(|&l| l < top) else { break };
                len[p] += 1;
                len[..p].fill(0);
            }
        }),
        family("join-long", "box_cards! of 2 slices of every length 0 to 104 and 3 slices of every length 0 to 52", 105, |c, ctx| {
            let ids: Vec<u8> = (0..105 * 2).map(|k| (k * 5 % 52) as u8).collect();
            let v = want_cards(&ids);
            for b in 0..=104 {
                let (x, y) = (&v[..c], &v[c..c + b]);
                judge(ctx, "box_cards! of two slices", &ids[..c + b], &box_cards!(x, y));
                if c <= 52 && b <= 52 {
                    for d in 0..=52 {
                        let z = &v[c + b..c + b + d];
                        judge(ctx, "box_cards! of three slices", &ids[..c + b + d], &box_cards!(x, y, z));
                    }
                }
            }
        }),
        family("join-kinds", "box_cards! of every pair and triple of argument kinds (slice, Vec, &Vec, Box, Rc, Arc<Vec>, Cow, array) and lengths 0 to 4", KINDS, |c, ctx| {
            let part = |at: usize, n: usize| (at..at + n).map(refm::card).collect::<Vec<_>>();
            for (a, b) in (0..25).map(|k| (k / 5, k % 5)) {
                let (va, vb) = (part(0, a), part(a, b));
                let want: Vec<u8> = (0..(a + b) as u8).collect();
                for k in 0..KINDS {
                    let got = with_kind!(c, va, x => with_kind!(k, vb, y => box_cards!(x, y)));
                    judge(ctx, &format!("box_cards! of kinds {c}, {k}"), &want, &got);
                    let vd = part(a + b, (a + k) % 5);
                    let want: Vec<u8> = (0..(a + b + vd.len()) as u8).collect();
                    let got = with_kind!(c, va, x => with_kind!(k, vb, y => box_cards!(x, vd, y)));
                    let mut order = want.clone();
                    order[a..].rotate_left(b);
                    judge(ctx, &format!("box_cards! of kinds {c}, Vec, {k}"), &order, &got);
                }
            }
            ensure!(*box_cards!(cards!(Ace of Spades, King of Clubs), [card!(Two, Hearts)]) == *want_cards(&[48, 47, 1]), "box_cards! of macros");
            let all: Vec<Card> = refm::deck().into();
            ensure!(*box_cards!(&all[..26], all[26..]) == all[..], "box_cards! of two halves of a deck");
        }),
        family("callers-names", "macros used where Card, Rank, Suit, Ace, Spades and card name other things, and as const, static and const fn", 1, |_, ctx| {
            let got = foreign::all();
            judge(ctx, "macros among foreign names", &[48, 48, 48, 45, 45, 48, 48, 48, 48, 45, 48, 45, 48, 45, 45], &got);
            ctx.sample(|| hand_text(&[48, 45]));
        }),
    ]
}

fn layout(ctx: &mut Ctx, s: &str) {
    let got: Vec<_> = cards!(s).collect();
    let w = words(s);
    judge_parsed(ctx, &format!("cards!({s:?})"), &w, &got);
    let all = cards!(s).try_collect::<Vec<_>>();
    let want: Result<Vec<_>, _> = w.iter().map(|w| model_parse(w).map(refm::card)).collect();
    if all != want {
        fail(format!("cards!({s:?}) collects to {all:?} instead of {want:?}"));
    }
}

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> {
    (id == "C18").then(|| (c18(env), vec!["macro forms are compiled from generated text: every card and every pair, not every list"]))
}

fn main() { cli::cli(families) }
