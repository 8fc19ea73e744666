//! C14, C15, C16: messages, names and classes.

use std::cmp::Ordering;

use poker::{Card, Eval, EvalClass, EvalError, Rank};

use crate::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::*,
    refm::{self, class_key, model_parse, hand_text, strength, NAMES, PLURALS, RANKS},
};

// ---------------------------------------------------------------- C14

pub(crate) fn want_message(s: &str) -> Option<String> {
    use poker::ParseCardError::*;
    Some(match model_parse(s).err()? {
        InvalidLength { .. } => {
            format!("Error parsing input '{s}' as a Card: Found input of length {}, expected 2", s.chars().count())
        }
        InvalidRank { incorrect_char, .. } => format!(
            "Error parsing input '{s}' as a Card: Invalid rank character '{incorrect_char}', expected one of [23456789TJQKA]"
        ),
        InvalidSuit { incorrect_char, .. } => {
            format!("Error parsing input '{s}' as a Card: Invalid suit character '{incorrect_char}', expected one of [chsd]")
        }
    })
}

fn judge_message(ctx: &mut Ctx, s: &str) {
    match (s.parse::<Card>(), want_message(s)) {
        (Ok(_), None) => {}
        (Err(e), Some(w)) => {
            let g = e.to_string();
            ensure!(g == w, "the message for {:?} is {:?}, the facts are {:?}", cut(s), cut(&g), cut(&w));
            ensure!(e.clone().to_string() == w, "a copied error has another message");
            ctx.transitions += 1;
        }
        (g, w) => fail(format!("parsing {:?} gives {g:?}, expected message {w:?}", cut(s))),
    }
    ctx.traces += 1;
    ctx.states += 1;
}

fn cut(s: &str) -> String {
    if s.chars().count() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s.into()
    }
}

/// The names listed must be exactly the repeated cards, once each.
fn judge_hand_message(env: &Env, ctx: &mut Ctx, ids: &[usize]) {
    let cards = env.cards(ids);
    let e = match env.evaluator().evaluate(&cards) {
        Ok(_) => return,
        Err(e) => e,
    };
    let g = e.to_string();
    let mut count = [0u32; 52];
    for &i in ids {
        count[i] += 1;
    }
    let mut want: Vec<String> = (0..52).filter(|&i| count[i] > 1).map(refm::text).collect();
    want.sort();
    match e {
        EvalError::CardsNotUnique(_) => {
            const HEAD: &str = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once:";
            let Some(rest) = g.strip_prefix(HEAD) else { fail(format!("message for {}: {g:?}", hand_text(ids))) };
            let mut got: Vec<String> = rest.split(|c: char| c.is_whitespace() || c == ',').filter(|s| !s.is_empty()).map(str::to_string).collect();
            got.sort();
            ensure!(got == want, "the message for {} names {got:?}, the repeated cards are {want:?}", hand_text(ids));
        }
        EvalError::InvalidHandSize(_) => {
            let w = format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {}", ids.len());
            ensure!(g == w, "the message for {} is {g:?}", hand_text(ids));
        }
    }
    ctx.traces += 1;
    ctx.states += 1;
    ctx.transitions += 1;
}

pub fn c14(env: &Env) -> Vec<Family<'_>> {
    let thorough = env.thorough();
    let mixed = ['A', 's', '2', ' ', '\u{e9}', '\u{2660}', '\u{1F0A1}', '\'', '\u{301}', '\0', '{', '}', '\n'];
    let m = mixed.len();
    let top = if thorough { 6 } else { 5 };
    let lists6: Vec<[usize; 6]> = vec![
        [48, 49, 50, 51, 44, 0],
        [0, 1, 2, 3, 4, 8],
        [12, 16, 20, 24, 13, 17],
        [51, 47, 50, 46, 3, 7],
    ];
    let deep = if thorough { 8 } else { 7 };
    vec![
        family("every-character", "each Unicode character alone, three times, as rank before s, as suit after A, with two valid neighbours", 0x11_0000 / 0x400, |b, ctx| {
            for u in (b * 0x400) as u32..((b + 1) * 0x400) as u32 {
                let Some(c) = char::from_u32(u) else { continue };
                ctx.note(u as u64);
                judge_message(ctx, &format!("{c}"));
                judge_message(ctx, &format!("{c}s"));
                judge_message(ctx, &format!("A{c}"));
                judge_message(ctx, &format!("{c}{c}"));
                judge_message(ctx, &format!("{c}{c}{c}"));
                judge_message(ctx, &format!("As{c}"));
            }
        })
        .describe(|n| format!("messages around U+{n:04X}")),
        family("mixed-width-strings", format!("every string of up to {top} characters over {mixed:?}"), m * m, move |c, ctx| {
            let mut idx = vec![c / m, c % m];
            if c == 0 {
                judge_message(ctx, "");
                for x in mixed {
                    judge_message(ctx, &x.to_string());
                }
            }
            for n in 2..=top {
                idx.resize(n, 0);
                idx[2..].fill(0);
                loop {
                    let s: String = idx.iter().map(|&i| mixed[i]).collect();
                    judge_message(ctx, &s);
                    let mut i = n;
                    let done = loop {
                        if i == 2 {
                            break true;
                        }
                        i -= 1;
                        idx[i] += 1;
                        if idx[i] < m {
                            break false;
                        }
                        idx[i] = 0;
                    };
                    if done {
                        break;
                    }
                }
            }
            ctx.beat();
        }),
        family("lengths", "strings of every length 0..=2000 and around powers of two up to 2^17, of one- to four-byte characters", 2001 + 21, |k, ctx| {
            let n = if k <= 2000 { k } else { (1usize << (11 + (k - 2001) / 3)) + (k - 2001) % 3 - 1 };
            ctx.note(n as u64);
            for c in ["s", "\u{e9}", "\u{2660}", "\u{1F0A1}"] {
                judge_message(ctx, &c.repeat(n));
            }
            let mut s = "As".repeat(n / 2);
            s.push('\u{2660}');
            judge_message(ctx, &s);
        })
        .describe(|n| format!("messages for strings of {n} characters")),
        family("characters-apart", "building a card from two characters that are not both valid: the message names an invalid one of them (all pairs of 600 characters)", 600, |a, ctx| {
            let set: Vec<char> = (0u32..512).filter_map(char::from_u32).chain("♠♥♦♣АТКАТ２９Ａｓ🂡\u{200b}\u{feff}".chars()).collect();
            let Some(&x) = set.get(a) else { return };
            for &y in &set {
                let Err(e) = Card::try_from_chars(x, y) else { continue };
                ctx.note(a as u64);
                let g = e.to_string();
                let r = !refm::RANK_CHARS.contains(&x) && g.contains(&format!("Invalid rank character '{x}', expected one of [23456789TJQKA]"));
                let s = !refm::SUIT_CHARS.contains(&y) && g.contains(&format!("Invalid suit character '{y}', expected one of [chsd]"));
                ensure!(r || s, "message for the characters {x:?} and {y:?}: {g:?}");
                ctx.traces += 1;
                ctx.states += 1;
                ctx.transitions += 1;
            }
        }),
        family("repeated-pairs", "every ordered pair of cards, both repeated, in a list of six to nine cards; three, four, ten times", 52, move |a, ctx| {
            for b in 0..52 {
                let others: Vec<usize> = (0..52).filter(|&x| x != a && x != b).collect();
                let k = (a * 7 + b) % 40;
                let f = &others[k..k + 4];
                ctx.note((a * 52 + b) as u64);
                for l in [
                    vec![a, b, a, b, f[0], f[1]],
                    vec![a, f[0], b, f[1], b, a],
                    vec![a, b, f[0], f[1], a, f[2], f[3]],
                    vec![a, a, a, b, b, b, f[0]],
                    vec![f[0], a, f[1], a, f[2], a, b, f[3], a],
                    vec![a, a],
                    vec![b, a, b],
                    vec![a; 10],
                    vec![a; 257],
                    vec![a; 256],
                ] {
                    judge_hand_message(env, ctx, &l);
                }
                if a == 0 {
                    ctx.outcome(b as u64);
                }
            }
        })
        .describe(|n| format!("hand messages for cards {} and {}", refm::text(n as usize / 52), refm::text(n as usize % 52))),
        family("repetition-patterns", format!("every list of up to {deep} cards over {} alphabets of six look-alike cards", lists6.len()), lists6.len() * 36, move |c, ctx| {
            let al = lists6[c / 36];
            for n in 2..=deep {
                let mut ids = vec![al[c % 6], al[c / 6 % 6]];
                ids.resize(n, 0);
                for x in 0..6usize.pow(n as u32 - 2) {
                    let mut y = x;
                    for i in 2..n {
                        ids[i] = al[y % 6];
                        y /= 6;
                    }
                    judge_hand_message(env, ctx, &ids);
                }
            }
            ctx.beat();
        }),
        family("many-repeats", "one card 2^k-1, 2^k, 2^k+1 times (k = 1 to 20), alone, with one other card, with another one repeated as often", 20 * 3, move |c, ctx| {
            let n = (1usize << (c / 3 + 1)) + c % 3 - 1;
            let a = (c * 11) % 52;
            let mut l = vec![a; n];
            ctx.note(n as u64);
            if n > 1 {
                judge_hand_message(env, ctx, &l);
            }
            l.push((a + 1) % 52);
            if n > 1 {
                judge_hand_message(env, ctx, &l);
            }
            l.extend(vec![(a + 1) % 52; n - 1]);
            l.extend([(a + 2) % 52, (a + 7) % 52]);
            l.rotate_left(n / 2);
            if n > 1 {
                judge_hand_message(env, ctx, &l);
            }
        })
        .describe(|n| format!("message for a hand with a card {n} times")),
        family("whole-deck-repeats", "the deck with every set of one or two cards repeated; the deck twice; every hand size below five", 52, move |a, ctx| {
            for b in 0..52 {
                let mut l: Vec<usize> = (0..52).collect();
                l.push(a);
                if b != a {
                    l.push(b);
                }
                scramble(&mut l, (a * 52 + b) as u64);
                judge_hand_message(env, ctx, &l);
            }
            let mut l: Vec<usize> = (0..52).chain(0..52).filter(|&x| x != a).collect();
            scramble(&mut l, a as u64);
            judge_hand_message(env, ctx, &l);
            for n in 0..5 {
                let l: Vec<usize> = (0..n).map(|i| (a + 5 * i) % 52).collect();
                judge_hand_message(env, ctx, &l);
            }
        }),
        crate::p_calls::c14_writers(env),
    ]
}

// ---------------------------------------------------------------- C15

fn judge_named(ctx: &mut Ctx, e: Eval, s: u32, who: &dyn Fn() -> String) {
    let tests = [
        e.is_high_card(),
        e.is_pair(),
        e.is_two_pair(),
        e.is_three_of_a_kind(),
        e.is_straight(),
        e.is_flush(),
        e.is_full_house(),
        e.is_four_of_a_kind(),
        e.is_straight_flush(),
    ];
    let cat = refm::cat(s) as usize;
    for (i, t) in tests.iter().enumerate() {
        ensure!(*t == (i == cat), "{}: category test number {i} says {t}, the hand is {}", who(), refm::name_of(s));
    }
    let royal = cat == 8 && refm::nth(s, 0) == 12;
    ensure!(e.is_royal_flush() == royal, "{}: the royal flush test says {}", who(), e.is_royal_flush());
    ensure!(e.class() == refm::class_of(s), "{}: class {:?}", who(), e.class());
    let w = refm::name_of(s);
    ensure!(e.to_string() == w, "{} is called {:?}, should be {w:?}", who(), e.to_string());
    ensure!(e.class().to_string() == w, "the class of {} is called {:?}, should be {w:?}", who(), e.class().to_string());
    ctx.transitions += 13;
    ctx.traces += 1;
}

/// Every class value a user can construct, with its ordering key and name.
fn all_classes() -> Vec<(EvalClass, (u32, usize, usize), String)> {
    let mut v = vec![];
    for i in 0..13 {
        let r = RANKS[i];
        let (n, p) = (NAMES[i], PLURALS[i]);
        v.push((EvalClass::HighCard { high_rank: r }, (0, i, 0), format!("High card, {n}")));
        v.push((EvalClass::Pair { pair: r }, (1, i, 0), format!("Pair, {p}")));
        v.push((EvalClass::ThreeOfAKind { trips: r }, (3, i, 0), format!("Three of a kind, {p}")));
        v.push((EvalClass::Straight { high_rank: r }, (4, i, 0), format!("Straight, {n}-high")));
        v.push((EvalClass::Flush { high_rank: r }, (5, i, 0), format!("Flush, {n}-high")));
        v.push((EvalClass::FourOfAKind { quads: r }, (7, i, 0), format!("Four of a kind, {p}")));
        let sf = if r == Rank::Ace { "Royal flush".to_string() } else { format!("Straight flush, {n}-high") };
        v.push((EvalClass::StraightFlush { high_rank: r }, (8, i, 0), sf));
        for j in 0..13 {
            let q = PLURALS[j];
            v.push((EvalClass::TwoPair { first_pair: r, second_pair: RANKS[j] }, (2, i, j), format!("Two pair, {p} and {q}")));
            v.push((EvalClass::FullHouse { trips: r, pair: RANKS[j] }, (6, i, j), format!("Full house, {p} over {q}")));
        }
    }
    v
}

pub fn c15(env: &Env) -> Vec<Family<'_>> {
    let heads = pairs_for(5);
    let heads6 = pairs_for(6);
    let step = if env.thorough() { 1 } else { 5 };
    vec![
        family("every-strength", "all 7,462 strengths and the published best and worst", 7462, move |i, ctx| {
            let st = env.strengths();
            ctx.note(i as u64);
            judge_named(ctx, env.reps()[i], st.list[i], &|| hand_text(&st.rep[i]));
            if i == 0 {
                judge_named(ctx, Eval::WORST, st.list[0], &|| "Eval::WORST".into());
                judge_named(ctx, Eval::BEST, st.list[7461], &|| "Eval::BEST".into());
            }
            ctx.states += 1;
            ctx.outcome(refm::cat(st.list[i]) as u64);
            if i % 1500 == 0 {
                ctx.sample(|| refm::name_of(st.list[i]));
            }
        }),
        family("every-five-card-hand", "all 2,598,960 five-card hands: every category test, class and name", heads.len(), move |c, ctx| {
            subsets_in_chunk(5, heads[c], &mut |ids| {
                let m = mask(ids);
                ctx.note(m);
                match env.evaluator().evaluate(env.cards(ids)) {
                    Ok(e) => judge_named(ctx, e, strength(m), &|| hand_text(ids)),
                    Err(e) => fail(format!("{} refused: {e:?}", hand_text(ids))),
                }
                ctx.states += 1;
            });
        })
        .describe(crate::p_hands::describe_mask),
        family("six-card-hands", format!("every {step}th of the C(52,6) six-card hands (all in thorough): every category test, class and name"), heads6.len(), move |c, ctx| {
            let mut k = c;
            let mut cards = env.cards(&[0, 1, 2, 3, 4, 5]);
            subsets_in_chunk(6, heads6[c], &mut |ids| {
                k += 1;
                if k % step != 0 {
                    return;
                }
                let m = mask(ids);
                ctx.note(m);
                for i in 0..6 {
                    cards[i] = env.deck()[ids[5 - i]];
                }
                match env.evaluator().evaluate(&cards) {
                    Ok(e) => judge_named(ctx, e, strength(m), &|| hand_text(ids)),
                    Err(e) => fail(format!("{} refused: {e:?}", hand_text(ids))),
                }
                ctx.states += 1;
            });
        })
        .describe(crate::p_hands::describe_mask),
        family("seven-card-hands-per-strength", "a seven-card hand for every strength it can have, in two orders", 7462, move |i, ctx| {
            let st = env.strengths();
            // two neutral or stronger cards, whichever come first
            let mut ids = st.rep[i].to_vec();
            let mut c = i % 52;
            while ids.len() < 7 {
                if !ids.contains(&c) {
                    ids.push(c);
                }
                c = (c + 11) % 52;
            }
            for k in 0..2 {
                scramble(&mut ids, (i * 2 + k) as u64);
                let m = mask(&ids);
                ctx.note(m);
                match env.evaluator().evaluate(env.cards(&ids)) {
                    Ok(e) => judge_named(ctx, e, strength(m), &|| hand_text(&ids)),
                    Err(e) => fail(format!("{} refused: {e:?}", hand_text(&ids))),
                }
            }
            ctx.states += 1;
        })
        .describe(crate::p_hands::describe_mask),
        family("every-class-value", "all 429 constructible class values: printed name", 1, |_, ctx| {
            for (c, _, name) in all_classes() {
                ensure!(c.to_string() == name, "{c:?} is called {:?}, should be {name:?}", c.to_string());
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 1;
            }
        }),
        crate::p_calls::c15_writers(env),
    ]
}

// ---------------------------------------------------------------- C16

pub fn c16(env: &Env) -> Vec<Family<'_>> {
    let all = all_classes();
    let n = all.len();
    let all2 = all.clone();
    let all3 = all.clone();
    vec![
        family("class-pairs", format!("all {n}^2 ordered pairs of class values, every comparison"), n, move |i, ctx| {
            for (b, kb, _) in &all {
                let (a, ka, _) = &all[i];
                let want = ka.cmp(kb);
                macro_rules! is {
                    ($e:expr, $w:expr) => {{
                        let (g, w) = ($e, $w);
                        ensure!(g == w, "with a = {a:?} and b = {b:?}: {} is {g:?}, should be {w:?}", stringify!($e));
                        ctx.transitions += 1;
                    }};
                }
                is!(a.cmp(b), want);
                is!(a.partial_cmp(b), Some(want));
                is!(a == b, want == Ordering::Equal);
                is!(a != b, want != Ordering::Equal);
                is!(a < b, want == Ordering::Less);
                is!(a <= b, want != Ordering::Greater);
                is!(a > b, want == Ordering::Greater);
                is!(a >= b, want != Ordering::Less);
                is!(*a.max(b) == if want == Ordering::Greater { *a } else { *b }, true);
                is!(*a.min(b) == if want == Ordering::Greater { *b } else { *a }, true);
                ctx.states += 1;
                ctx.traces += 1;
            }
        }),
        family("class-clamping", format!("all triples of {n} class values with ordered bounds: clamp"), n, move |i, ctx| {
            for (lo, kl, _) in &all3 {
                for (hi, kh, _) in &all3 {
                    if kl <= kh {
                        let (x, kx, _) = &all3[i];
                        let want = if kx < kl { lo } else if kx > kh { hi } else { x };
                        let got = (*x).clamp(*lo, *hi);
                        ensure!(got == *want, "{x:?} clamped between {lo:?} and {hi:?} is {got:?}, should be {want:?}");
                        ctx.transitions += 1;
                    }
                }
            }
            ctx.states += 1;
            ctx.traces += 1;
        }),
        family("class-sorting", "sorting all class values from 40 orders", 40, move |k, ctx| {
            let mut v = all2.clone();
            scramble(&mut v, k as u64);
            let mut c: Vec<EvalClass> = v.iter().map(|x| x.0).collect();
            c.sort();
            v.sort_by_key(|x| x.1);
            ensure!(c.iter().eq(v.iter().map(|x| &x.0)), "sorted classes are out of order");
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += c.len() as u64;
        }),
        family("classes-of-hands", "all 7,462^2 ordered pairs of strengths: order of classes against order of hands", 7462, move |i, ctx| {
            let st = env.strengths();
            let reps = env.reps();
            let (a, ka) = (reps[i], class_key(st.list[i]));
            let ca = a.class();
            for j in 0..7462 {
                let b = reps[j];
                let cb = b.class();
                let w = ka.cmp(&class_key(st.list[j]));
                let g = ca.cmp(&cb);
                let hands = a.cmp(&b);
                if g != w || (g != Ordering::Equal && g != hands) || (hands == Ordering::Greater && g == Ordering::Less) {
                    fail(format!(
                        "{} and {}: classes {ca:?} and {cb:?} compare {g:?} (should be {w:?}), the hands compare {hands:?}",
                        hand_text(&st.rep[i]), hand_text(&st.rep[j])
                    ));
                }
            }
            ctx.beat();
            ctx.states += 1;
            ctx.traces += 7462;
            ctx.transitions += 3 * 7462;
        }),
    ]
}
