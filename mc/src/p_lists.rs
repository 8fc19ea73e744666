//! C04 (any list of cards is answered correctly) and C05 (a result depends
//! only on the set of cards).

use std::{borrow::Cow, rc::Rc, sync::Arc};

use poker::{Card, Eval, EvalError, Evaluator};

use crate::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::*,
    refm::{self, class_of, hand_text, strength},
};

// ---------------------------------------------------------------- C04

fn show(ids: &[usize]) -> String {
    if ids.len() <= 60 {
        format!("{} card(s): {}", ids.len(), hand_text(ids))
    } else {
        format!("{} cards: {} ...", ids.len(), hand_text(&ids[..60]))
    }
}

fn model_has_dup(ids: &[usize]) -> bool {
    let mut seen = 0u64;
    for &i in ids {
        if seen >> i & 1 == 1 {
            return true;
        }
        seen |= 1 << i;
    }
    false
}

/// Evaluate one list and compare kind of answer and payload with the model.
#[inline]
fn judge_list(env: &Env, ctx: &mut Ctx, cards: &[Card], ids: &[usize]) {
    let got = env.evaluator().evaluate(cards);
    let dup = model_has_dup(ids);
    match got {
        Ok(_) => ensure!(!dup && ids.len() >= 5, "invalid hand accepted: {}", show(ids)),
        Err(EvalError::CardsNotUnique(v)) => {
            ensure!(dup, "distinct cards refused as not unique: {}", show(ids));
            ensure!(v.as_slice() == cards, "the not-unique error for {} carries other cards: {} of them, {:?}", show(ids), v.len(), v.iter().map(|c| c.rank_suit_string()).take(60).collect::<Vec<_>>());
        }
        Err(EvalError::InvalidHandSize(n)) => {
            ensure!(!dup, "a hand with a repeated card is refused for its size: {}", show(ids));
            ensure!(ids.len() < 5, "a hand of enough cards is refused for its size {n}: {}", show(ids));
            ensure!(n == ids.len(), "the size error for {} says {n}", show(ids));
        }
    }
    ctx.traces += 1;
    ctx.transitions += if dup { 2 + ids.len() as u64 } else { 2 };
}

/// base-52 number, most significant digit first, with the length on top
fn describe_list(n: u64) -> String {
    let (len, mut x) = ((n >> 40) as usize, n & ((1 << 40) - 1));
    let mut ids = vec![0usize; len.min(7)];
    for i in (0..ids.len()).rev() {
        ids[i] = (x % 52) as usize;
        x /= 52;
    }
    format!("evaluation of {}", show(&ids))
}

fn note_of(ids: &[usize]) -> u64 { (ids.len() as u64) << 40 | ids.iter().fold(0u64, |a, &i| a * 52 + i as u64) }

fn describe_large(n: u64) -> String {
    format!("evaluation of a {}-card list (family index {})", n >> 32, n & 0xffff_ffff)
}

fn short_lists(env: &Env) -> Vec<Family<'_>> {
    let mut v = vec![];
    for (name, n, chunks) in [
        ("lists-of-0", 0usize, 1usize),
        ("lists-of-1", 1, 1),
        ("lists-of-2", 2, 1),
        ("lists-of-3", 3, 52),
        ("lists-of-4", 4, 2704),
        ("lists-of-5", 5, 2704),
    ] {
        v.push(
            family(name, format!("every list of {n} cards, repetition allowed (52^{n})"), chunks, move |c, ctx| {
                let deck = env.deck();
                let fixed = match chunks {
                    1 => 0,
                    52 => 1,
                    _ => 2,
                };
                let mut ids = [0usize; 5];
                match fixed {
                    1 => ids[0] = c,
                    2 => {
                        ids[0] = c / 52;
                        ids[1] = c % 52;
                    }
                    _ => {}
                }
                let mut cards = [deck[0]; 5];
                loop {
                    for i in 0..n {
                        cards[i] = deck[ids[i]];
                    }
                    ctx.note(note_of(&ids[..n]));
                    judge_list(env, ctx, &cards[..n], &ids[..n]);
                    ctx.states += 1;
                    // odometer
                    let mut i = n;
                    let done = loop {
                        if i == fixed {
                            break true;
                        }
                        i -= 1;
                        ids[i] += 1;
                        if ids[i] < 52 {
                            break false;
                        }
                        ids[i] = 0;
                    };
                    if done {
                        break;
                    }
                }
                ctx.outcome(n as u64);
                ctx.sample(|| show(&ids[..n]));
            })
            .describe(describe_list),
        );
    }
    v
}

pub fn c04(env: &Env) -> Vec<Family<'_>> {
    let mut v = short_lists(env);
    // one card twice among distinct cards: every such multiset of 6 and 7
    for (name, n) in [("six-cards-one-repeated", 6usize), ("seven-cards-one-repeated", 7)] {
        let heads = pairs_for(n - 1);
        let places = if env.thorough() { n * (n - 1) / 2 } else { 1 };
        v.push(
            family(
                name,
                format!("every set of {} cards x every one of them repeated, {places} placements of the repeat each", n - 1),
                heads.len(),
                move |c, ctx| {
                    let deck = env.deck();
                    let mut l = [0usize; 8];
                    let mut cards = [deck[0]; 8];
                    subsets_in_chunk(n - 1, heads[c], &mut |ids| {
                        let h = splitmix(mask(ids));
                        for r in 0..n - 1 {
                            for p in 0..places {
                                // position pair (a, b) for the repeated card
                                let pp = (h as usize % 1000 + p + r) % (n * (n - 1) / 2);
                                let (mut a, mut k) = (0, pp);
                                while k >= n - 1 - a {
                                    k -= n - 1 - a;
                                    a += 1;
                                }
                                let b = a + 1 + k;
                                let mut o = 0;
                                for i in 0..n {
                                    l[i] = if i == a || i == b {
                                        ids[r]
                                    } else {
                                        if o == r {
                                            o += 1;
                                        }
                                        o += 1;
                                        ids[o - 1]
                                    };
                                    cards[i] = deck[l[i]];
                                }
                                ctx.note(note_of(&l[..n]));
                                judge_list(env, ctx, &cards[..n], &l[..n]);
                                ctx.states += 1;
                            }
                        }
                        ctx.sample(|| show(&l[..n]));
                    });
                },
            )
            .describe(describe_list),
        );
    }
    let six = pairs_for(6);
    v.push(
        family("six-distinct-cards", "every set of six cards is accepted", six.len(), move |c, ctx| {
            let deck = env.deck();
            let mut cards = [deck[0]; 6];
            subsets_in_chunk(6, six[c], &mut |ids| {
                for i in 0..6 {
                    cards[i] = deck[ids[5 - i]];
                }
                ctx.note(note_of(ids));
                judge_list(env, ctx, &cards, ids);
                ctx.states += 1;
            });
        })
        .describe(describe_list),
    );
    let rot = if env.thorough() { 52 } else { 13 };
    v.push(
        family(
            "one-repeat-any-place",
            format!("n = 6..=60 cards: every pair of positions holding the same card, x {rot} deck rotations"),
            55,
            move |k, ctx| {
                let n = 6 + k;
                for r in 0..rot {
                    let base: Vec<usize> = (0..n).map(|i| (r * (52 / rot) + i * if r % 2 == 0 { 1 } else { 5 }) % 52).collect();
                    for i in 0..n {
                        for j in i + 1..n {
                            for w in 0..2 {
                                let mut ids = base.clone();
                                if w == 0 {
                                    ids[j] = ids[i];
                                } else {
                                    ids[i] = ids[j];
                                }
                                ctx.note((n as u64) << 32 | (r * n * n + i * n + j) as u64);
                                judge_list(env, ctx, &env.cards(&ids), &ids);
                                ctx.states += 1;
                            }
                        }
                    }
                    ctx.sample(|| show(&base));
                }
                ctx.outcome(n as u64);
            },
        )
        .describe(describe_large),
    );
    v.push(
        family("two-card-alphabets", "every pair of cards: every list of length 2 to 8 over the two", 52, move |a, ctx| {
            for b in a + 1..52 {
                for n in 2..=8usize {
                    for bits in 0..1usize << n {
                        let mut ids = [0usize; 8];
                        for i in 0..n {
                            ids[i] = if bits >> i & 1 == 0 { a } else { b };
                        }
                        ctx.note(note_of(&ids[..n.min(7)]));
                        judge_list(env, ctx, &env.cards(&ids[..n]), &ids[..n]);
                        ctx.states += 1;
                    }
                }
            }
        })
        .describe(describe_list),
    );
    // alphabets of cards that look alike: same rank, same suit, neighbours
    let alphabets: Vec<[usize; 6]> = vec![
        [0, 1, 2, 3, 48, 49],
        [48, 49, 50, 51, 0, 3],
        [0, 4, 8, 12, 16, 48],
        [3, 7, 11, 32, 35, 51],
        [13, 26, 39, 1, 2, 50],
        [40, 41, 44, 45, 48, 49],
    ];
    v.push(
        family("six-card-alphabets", "every list of length 6 and 7 over 6 cards, for 6 alphabets of look-alike cards", alphabets.len() * 36, move |k, ctx| {
            let al = alphabets[k / 36];
            for n in [6usize, 7] {
                let mut ids = [0usize; 7];
                for x in 0..6usize.pow(n as u32 - 2) {
                    let mut y = x;
                    for i in 0..n - 2 {
                        ids[i] = al[y % 6];
                        y /= 6;
                    }
                    ids[n - 2] = al[k % 6];
                    ids[n - 1] = al[k / 6 % 6];
                    ctx.note(note_of(&ids[..n]));
                    judge_list(env, ctx, &env.cards(&ids[..n]), &ids[..n]);
                    ctx.states += 1;
                }
            }
        })
        .describe(describe_list),
    );
    v.push(
        family("long-lists", "every length 53..=1100 and 2^k-1, 2^k, 2^k+1 up to 2^20+1 cards: repeated decks, one card only, one late repeat", 1048 + 30, move |k, ctx| {
            let n = if k < 1048 {
                53 + k
            } else {
                let e = 11 + (k - 1048) / 3;
                (1usize << e) + (k - 1048) % 3 - 1
            };
            for w in 0..6usize {
                let ids: Vec<usize> = (0..n)
                    .map(|i| match w {
                        0 => i % 52,
                        1 => 51 - i % 52,
                        2 => k % 52,
                        3 => (i * 5 + k) % 52,
                        4 => if i == n - 1 { 51 } else { 7 },
                        _ => splitmix((i as u64) << 20 | k as u64) as usize % 52,
                    })
                    .collect();
                ctx.note((n as u64) << 32 | w as u64);
                judge_list(env, ctx, &env.cards(&ids), &ids);
                ctx.states += 1;
            }
            ctx.outcome(n as u64);
        })
        .describe(describe_large),
    );
    let top = if env.thorough() { 52 } else { 30 };
    v.push(
        family("distinct-any-size", format!("8 to {top} distinct cards (and 52) are accepted: 8 deck orders each"), (top - 7 + 1) * 8, move |k, ctx| {
            let n = if k / 8 < top - 7 { 8 + k / 8 } else { 52 };
            let mut ids: Vec<usize> = (0..52).collect();
            match k % 8 {
                0 => {}
                1 => ids.reverse(),
                2 => ids.sort_by_key(|i| (i % 4, i / 4)),
                s => scramble(&mut ids, s as u64),
            }
            ctx.note((n as u64) << 32 | k as u64);
            judge_list(env, ctx, &env.cards(&ids[..n]), &ids[..n]);
            ctx.states += 1;
            ctx.outcome(n as u64);
        })
        .describe(describe_large),
    );
    v
}

// ---------------------------------------------------------------- C05

/// What evaluating these cards must give, according to the model.
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Hand(u32),
    Dup,
    Size(usize),
}

#[derive(Clone)]
struct Hand {
    ids: Vec<usize>,
    cards: Vec<Card>,
    want: Want,
}

impl Hand {
    fn new(env: &Env, ids: &[usize]) -> Hand {
        let want = if model_has_dup(ids) {
            Want::Dup
        } else if ids.len() < 5 {
            Want::Size(ids.len())
        } else {
            Want::Hand(strength(mask(ids)))
        };
        Hand { ids: ids.to_vec(), cards: env.cards(ids), want }
    }

    /// The answer is the model's (category, defining ranks, error) and, for a
    /// hand, ties with the known result for that strength.
    #[inline]
    fn judge(&self, env: &Env, got: Result<Eval, EvalError>, how: impl Fn() -> String) {
        let ok = match (&got, &self.want) {
            (Ok(e), Want::Hand(s)) => *e == env.reps()[env.strengths().idx(*s)] && e.class() == class_of(*s),
            (Err(EvalError::CardsNotUnique(v)), Want::Dup) => *v == self.cards,
            (Err(EvalError::InvalidHandSize(n)), Want::Size(m)) => n == m,
            _ => false,
        };
        if !ok {
            let g = match got {
                Ok(e) => format!("{:?}", e.class()),
                Err(e) => format!("error: {e}"),
            };
            let w = match &self.want {
                Want::Hand(s) => refm::name_of(*s),
                w => format!("{w:?}"),
            };
            fail(format!("{} should be {w} but is {g} (or does not tie with it) {}", show(&self.ids), how()));
        }
    }
}

fn invalid_hands() -> Vec<Vec<usize>> {
    let mut v = vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![0, 1, 2],
        vec![0, 1, 2, 3],
        vec![0, 1, 2, 2],
        vec![48, 44, 40, 36],
        vec![48, 44, 40, 36, 36],
        vec![48, 48, 48, 48, 48],
        vec![0, 4, 8, 12, 20, 0],
        vec![48, 44, 40, 36, 32, 31, 31],
    ];
    v.push((0..52).chain([5]).collect());
    v
}

type Kind = (&'static str, fn() -> Evaluator);

fn kinds() -> Vec<Kind> {
    vec![
        ("Evaluator::new()", Evaluator::new),
        ("Evaluator::default()", Evaluator::default),
        ("Evaluator::new().clone()", || {
            let e = Evaluator::new();
            let c = e.clone();
            drop(e);
            c
        }),
        ("Evaluator::default().clone()", || Evaluator::default().clone()),
        ("clone of a clone", || {
            let e = Evaluator::new();
            e.clone().clone()
        }),
        ("clone_from(new) over a new one", || {
            let mut e = Evaluator::new();
            e.clone_from(&Evaluator::new());
            e
        }),
        ("clone_from(new) over a default one", || {
            let mut e = Evaluator::default();
            e.clone_from(&Evaluator::new());
            e
        }),
        ("mem::take of a new one", || {
            let mut e = Evaluator::new();
            std::mem::take(&mut e)
        }),
        ("what mem::take leaves behind", || {
            let mut e = Evaluator::new();
            let _ = std::mem::take(&mut e);
            e
        }),
        ("clone after use", || {
            let e = Evaluator::new();
            let _ = e.evaluate(&refm::deck()[..7]);
            let _ = e.evaluate(&refm::deck()[..2]);
            e.clone()
        }),
        ("created on another thread", || std::thread::spawn(Evaluator::new).join().unwrap_or_else(|_| fail("Evaluator::new() panicked on a new thread".into()))),
        ("built by Option::unwrap_or_default", || None::<Evaluator>.unwrap_or_default()),
    ]
}

fn describe_kind(n: u64) -> String { format!("evaluator kind '{}', hand number {}", kinds()[(n >> 32) as usize % kinds().len()].0, n & 0xffff_ffff) }

/// A six- or seven-card hand of each strength: its representative and cards
/// that leave the strength alone where possible.
fn padded(ids: &[usize; 5], extra: usize) -> Vec<usize> {
    let s = strength(mask(ids));
    let mut v = ids.to_vec();
    for c in 0..52 {
        if v.len() == 5 + extra {
            break;
        }
        if v.contains(&c) {
            continue;
        }
        v.push(c);
        if strength(mask(&v)) != s {
            v.pop();
        }
    }
    // no neutral card exists for some weak hands: take any
    let mut c = 51;
    while v.len() < 5 + extra {
        if !v.contains(&c) {
            v.push(c);
        }
        c -= 1;
    }
    v
}

/// Hands that a cache, memo or state keyed too coarsely would confuse: same
/// ranks, same suits, same sums, same lengths, prefixes of one another.
fn confusable(env: &Env) -> Vec<Hand> {
    let h = |s: &str| {
        let ids: Vec<usize> = s
            .split_whitespace()
            .map(|t| {
                let c: Vec<char> = t.chars().collect();
                let r = refm::RANK_CHARS.iter().position(|&x| x == c[0]).unwrap();
                let u = refm::SUIT_CHARS.iter().position(|&x| x == c[1]).unwrap();
                r * 4 + u
            })
            .collect();
        Hand::new(env, &ids)
    };
    vec![
        h("Ks Qs 9s 5s 2s"),          // flush
        h("Ks Qs 9s 5s 2h"),          // same ranks, high card
        h("2h 5s 9s Qs Ks"),          // the same in another order
        h("Ks Qs 9s 5s 2s 2h"),       // flush in six
        h("Ks Qs 9s 5h 2s 5d"),       // no flush in six
        h("Ah 2s 3s 4s 5s"),          // straight
        h("As 2s 3s 4s 5s"),          // straight flush
        h("As 2s 3s 4s 5s 6s 7s"),    // better one in seven
        h("Ks Qs 9s 5s 5s"),          // repeated card
        h("Ks Qs 9s 5s"),             // four cards
        h(""),
        h("Ks Qs 9s 5s 2s 2s 7c"),    // repeated card in seven
    ]
}

pub fn c05(env: &Env) -> Vec<Family<'_>> {
    let mut v = vec![];
    let ks = kinds();
    let nk = ks.len();
    let hands: Arc<Vec<Hand>> = Arc::new(
        env.strengths()
            .rep
            .iter()
            .map(|r| Hand::new(env, r))
            .chain(invalid_hands().iter().map(|i| Hand::new(env, i)))
            .chain(env.strengths().rep.iter().step_by(7).map(|r| Hand::new(env, &padded(r, 1))))
            .chain(env.strengths().rep.iter().step_by(11).map(|r| Hand::new(env, &padded(r, 2))))
            .collect(),
    );
    {
        let hands = hands.clone();
        v.push(
            family("every-way-to-get-an-evaluator", format!("{nk} ways of obtaining an evaluator x every strength, 6- and 7-card and invalid hands; forwards and backwards"), nk, move |k, ctx| {
                ctx.note((k as u64) << 32);
                let e = ks[k].1();
                for round in 0..2 {
                    for i in 0..hands.len() {
                        let i = if round == 0 { i } else { hands.len() - 1 - i };
                        ctx.note((k as u64) << 32 | i as u64);
                        hands[i].judge(env, e.evaluate(&hands[i].cards), || format!("with the evaluator from {}", ks[k].0));
                        ctx.transitions += 1;
                    }
                }
                ctx.traces += 2;
                ctx.states += hands.len() as u64;
                ctx.outcome(k as u64);
                ctx.sample(|| ks[k].0.to_string());
            })
            .describe(describe_kind),
        );
    }
    let ks = kinds();
    v.push(
        family("evaluators-are-equal", format!("every ordered pair of the {nk} kinds of evaluator compares equal, before and after use"), nk, move |k, ctx| {
            ctx.note((k as u64) << 32);
            let a = ks[k].1();
            for (name, make) in &ks {
                let b = make();
                for round in 0..2 {
                    ensure!(a == b && b == a && !(a != b), "evaluators from {} and {} are not equal{}", ks[k].0, name, if round == 1 { " after use" } else { "" });
                    let _ = a.evaluate(&env.deck()[..6]);
                    let _ = b.evaluate(&env.deck()[..1]);
                    ctx.transitions += 3;
                }
                ctx.states += 1;
                ctx.traces += 1;
            }
        })
        .describe(describe_kind),
    );
    // containers
    let hs = hands.clone();
    v.push(family("containers", "every strength and invalid hand as array, slice, Vec, Box, Rc, Arc, Cow, references, mutable slice, sub-slice at every offset up to 3", 64, move |c, ctx| {
        let ev = env.evaluator();
        for (n, h) in hs.iter().enumerate() {
            if n % 64 != c {
                continue;
            }
            ctx.note(n as u64);
            let s: &[Card] = &h.cards;
            let mut t = 0u64;
            macro_rules! with {
                ($name:expr, $e:expr) => {{
                    h.judge(env, ev.evaluate($e), || format!("passed as {}", $name));
                    t += 1;
                }};
            }
            with!("&[Card]", s);
            with!("Vec", s.to_vec());
            with!("&Vec", &s.to_vec());
            with!("&&[Card]", &s);
            with!("Box<[Card]>", s.to_vec().into_boxed_slice());
            with!("&Box<[Card]>", &s.to_vec().into_boxed_slice());
            with!("Rc<[Card]>", Rc::<[Card]>::from(s));
            with!("Arc<[Card]>", Arc::<[Card]>::from(s));
            with!("Arc<Vec>", AsRef::<Vec<Card>>::as_ref(&Arc::new(s.to_vec())));
            with!("Cow borrowed", Cow::Borrowed(s));
            with!("Cow owned", Cow::<[Card]>::Owned(s.to_vec()));
            with!("&mut [Card]", s.to_vec().as_mut_slice());
            let mut roomy = Vec::with_capacity(97);
            roomy.extend_from_slice(s);
            with!("Vec with spare capacity", roomy);
            match s.len() {
                5 => {
                    let a: [Card; 5] = s.try_into().unwrap();
                    with!("[Card; 5]", a);
                    with!("&[Card; 5]", &a);
                    with!("Rc<[Card; 5]>", Rc::new(a).as_slice());
                }
                6 => with!("[Card; 6]", <[Card; 6]>::try_from(s).unwrap()),
                7 => with!("[Card; 7]", <[Card; 7]>::try_from(s).unwrap()),
                0 => with!("[Card; 0]", [] as [Card; 0]),
                4 => with!("[Card; 4]", <[Card; 4]>::try_from(s).unwrap()),
                _ => {}
            }
            for off in 0..4usize {
                for pad in [0usize, 2] {
                    let mut big = vec![env.deck()[51]; off];
                    big.extend_from_slice(s);
                    big.extend(std::iter::repeat(env.deck()[0]).take(pad));
                    with!(format!("sub-slice at offset {off}"), &big[off..off + s.len()]);
                }
            }
            ctx.transitions += t;
            ctx.traces += t;
            ctx.states += 1;
            if s.len() == 6 {
                ctx.sample(|| show(&h.ids));
            }
        }
    }).describe(|n| format!("container family, hand number {n}")));
    // orders
    for (name, extra, step) in [("all-120-orders", 0usize, 1usize), ("all-720-orders", 1, 1), ("all-5040-orders", 2, if env.thorough() { 1 } else { 3 })] {
        let n = 5 + extra;
        let perms = permutations(n);
        let picks: Vec<usize> = (0..7462).step_by(step).collect();
        v.push(
            family(name, format!("{} orders of a {n}-card hand of {} strengths", perms.len(), picks.len()), picks.len(), move |k, ctx| {
                let ids = padded(&env.strengths().rep[picks[k]], extra);
                let h = Hand::new(env, &ids);
                let mut cards = h.cards.clone();
                for (i, p) in perms.iter().enumerate() {
                    for j in 0..n {
                        cards[j] = h.cards[p[j]];
                    }
                    ctx.note((picks[k] as u64) << 32 | i as u64);
                    h.judge(env, env.evaluator().evaluate(&cards), || format!("in the order {}", hand_text(&p.iter().map(|&x| ids[x]).collect::<Vec<_>>())));
                }
                ctx.states += 1;
                ctx.traces += perms.len() as u64;
                ctx.transitions += 2 * perms.len() as u64;
                ctx.sample(|| hand_text(&ids));
            })
            .describe(|n| format!("strength {} in order number {}", n >> 32, n & 0xffff_ffff)),
        );
    }
    // histories of length two over all strengths
    let hs = hands.clone();
    let n = hs.len();
    v.push(
        family("histories-of-2", format!("every ordered pair of {n} hands (all strengths, 6/7-card, invalid), second answer after the first"), n, move |i, ctx| {
            let e = Evaluator::clone(env.evaluator());
            let a = &hs[i];
            let b = hs[(i * 31 + 7) % n].cards.clone();
            for j in 0..n {
                ctx.note((i as u64) << 32 | j as u64);
                a.judge(env, e.evaluate(&a.cards), || format!("right after evaluating hand number {}", j.wrapping_sub(1)));
                hs[j].judge(env, e.evaluate(&hs[j].cards), || format!("right after evaluating {}", show(&a.ids)));
            }
            std::hint::black_box(b);
            ctx.states += n as u64;
            ctx.traces += n as u64;
            ctx.transitions += 2 * n as u64;
        })
        .describe(|n| format!("hand number {} then hand number {}", n >> 32, n & 0xffff_ffff)),
    );
    // same ranks, same suits, different result
    v.push(
        family("suit-patterns-of-one-rank-set", "every five different ranks: each suited hand right before and after each of the 1,024 suit patterns", 1287, move |c, ctx| {
            let mut k = c;
            // c-th 5-subset of 13 ranks
            let mut ranks = [0usize; 5];
            let (mut r, mut left) = (0usize, 5usize);
            while left > 0 {
                let with = binom(12 - r, left - 1);
                if k < with {
                    ranks[5 - left] = r;
                    left -= 1;
                } else {
                    k -= with;
                }
                r += 1;
            }
            let ev = env.evaluator();
            let suited: Vec<Hand> = (0..4).map(|s| Hand::new(env, &ranks.map(|r| r * 4 + s))).collect();
            let steps = if env.thorough() { 1 } else { 3 };
            for p in (c % steps..1024).step_by(steps) {
                let ids: [usize; 5] = std::array::from_fn(|i| ranks[i] * 4 + (p >> (2 * i) & 3));
                let h = Hand::new(env, &ids);
                for s in &suited {
                    ctx.note((c as u64) << 32 | p as u64);
                    s.judge(env, ev.evaluate(&s.cards), || format!("right after {}", show(&h.ids)));
                    h.judge(env, ev.evaluate(&h.cards), || format!("right after {}", show(&s.ids)));
                }
                ctx.states += 1;
                ctx.traces += 4;
                ctx.transitions += 8;
            }
            ctx.sample(|| show(&suited[0].ids));
        })
        .describe(|n| format!("rank set {} suit pattern {}", n >> 32, n & 0xffff_ffff)),
    );
    v.push(
        family("suit-swaps", "every flush of five plus one or two off-suit cards, right after the hand with two suits swapped (same ranks, same suits, same sums)", 1287, move |c, ctx| {
            let mut m5: Vec<usize> = vec![];
            {
                let mut k = c;
                let (mut r, mut left) = (0usize, 5usize);
                while left > 0 {
                    let with = binom(12 - r, left - 1);
                    if k < with {
                        m5.push(r);
                        left -= 1;
                    } else {
                        k -= with;
                    }
                    r += 1;
                }
            }
            let ev = env.evaluator();
            let s = c % 4;
            for off in 0..52usize {
                if off % 4 == s {
                    continue;
                }
                for second in [None, Some((off * 7 + 11 + c) % 52)] {
                    let mut a: Vec<usize> = m5.iter().map(|r| r * 4 + s).collect();
                    a.push(off);
                    if let Some(x) = second {
                        if a.contains(&x) || x % 4 == s {
                            continue;
                        }
                        a.push(x);
                    }
                    let ha = Hand::new(env, &a);
                    for i in 0..5 {
                        // swap the suits of card i and the off-suit card
                        let mut b = a.clone();
                        b[i] = a[i] / 4 * 4 + off % 4;
                        b[5] = off / 4 * 4 + s;
                        if model_has_dup(&b) {
                            continue;
                        }
                        let hb = Hand::new(env, &b);
                        ctx.note((c as u64) << 32 | (off * 5 + i) as u64);
                        ha.judge(env, ev.evaluate(&ha.cards), || format!("right after {}", show(&hb.ids)));
                        hb.judge(env, ev.evaluate(&hb.cards), || format!("right after {}", show(&ha.ids)));
                        ha.judge(env, ev.evaluate(&ha.cards), || format!("right after {}", show(&hb.ids)));
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 3;
                    }
                }
            }
            ctx.sample(|| format!("flush with ranks {m5:?}"));
        })
        .describe(|n| format!("flush {} swap {}", n >> 32, n & 0xffff_ffff)),
    );
    // longer histories over an alphabet made to collide
    let al = confusable(env);
    let a = al.len();
    let depth = if env.thorough() { 6 } else { 5 };
    v.push(
        family("histories-colliding", format!("every sequence of {depth} evaluations over {a} look-alike hands, each on a fresh copy of the evaluator every {a}^3 sequences"), a * a, move |c, ctx| {
            let mut seq = vec![0usize; depth];
            seq[0] = c / a;
            seq[1] = c % a;
            let mut e = env.evaluator().clone();
            let total = a.pow(depth as u32 - 2);
            for x in 0..total {
                if x % (a * a * a) == 0 {
                    e = env.evaluator().clone();
                }
                let mut y = x;
                for s in seq.iter_mut().skip(2) {
                    *s = y % a;
                    y /= a;
                }
                ctx.note((c * total + x) as u64);
                for (i, &h) in seq.iter().enumerate() {
                    al[h].judge(env, e.evaluate(&al[h].cards), || {
                        format!("as call {} of the history [{}]", i + 1, seq.iter().map(|&k| hand_text(&al[k].ids)).collect::<Vec<_>>().join(" | "))
                    });
                }
                ctx.transitions += depth as u64;
            }
            ctx.traces += total as u64;
            ctx.states += total as u64;
            ctx.sample(|| seq.iter().map(|&k| hand_text(&al[k].ids)).collect::<Vec<_>>().join(" | "));
        })
        .describe(|n| format!("history number {n}")),
    );
    // life cycles: evaluators created, cloned, replaced and dropped in between
    let al = confusable(env);
    let pick: Vec<usize> = vec![0, 1, 3, 8];
    let ops = 2 * pick.len() + 2 * 4;
    let depth = if env.thorough() { 5 } else { 4 };
    v.push(
        family(
            "life-cycles",
            format!("every sequence of up to {depth} operations out of {ops} on two evaluator slots: evaluate one of {} hands, replace by new/default/clone of the other/clone_from the other", pick.len()),
            ops * ops,
            move |c, ctx| {
                let total = ops.pow(depth as u32 - 2);
                for x in 0..total {
                    let mut seq = vec![c / ops, c % ops];
                    let mut y = x;
                    for _ in 2..depth {
                        seq.push(y % ops);
                        y /= ops;
                    }
                    ctx.note((c * total + x) as u64);
                    let mut slots = [env.evaluator().clone(), env.evaluator().clone()];
                    for (i, &o) in seq.iter().enumerate() {
                        let (k, o) = (o % 2, o / 2);
                        if o < pick.len() {
                            let h = &al[pick[o]];
                            h.judge(env, slots[k].evaluate(&h.cards), || format!("at step {} of operation history {seq:?}", i + 1));
                        } else {
                            match o - pick.len() {
                                0 => slots[k] = Evaluator::new(),
                                1 => slots[k] = Evaluator::default(),
                                2 => slots[k] = slots[1 - k].clone(),
                                _ => {
                                    let other = slots[1 - k].clone();
                                    slots[k].clone_from(&other)
                                }
                            }
                        }
                        ctx.transitions += 1;
                    }
                    for k in 0..2 {
                        for &p in &pick {
                            al[p].judge(env, slots[k].evaluate(&al[p].cards), || format!("after operation history {seq:?}"));
                            ctx.transitions += 1;
                        }
                    }
                    ensure!(slots[0] == slots[1], "evaluators differ after operation history {seq:?}");
                    ctx.traces += 1;
                    ctx.states += 1;
                }
            },
        )
        .describe(|n| format!("operation history number {n}")),
    );
    v.extend(crate::p_calls::c05_calls(env));
    // orders of large hands
    let every = if env.thorough() { 1 } else { 3 };
    let sizes: Vec<(usize, usize)> = (8..=49usize).rev().flat_map(|n| (0..8).map(move |k| (n, k))).collect();
    v.push(
        family("orders-of-large-hands", format!("8 to 49 cards with one royal flush among cards that give none: orders that put every pair of positions among its places (every {every}rd from 18 cards on)"), sizes.len(), move |c, ctx| {
            let (n, part) = sizes[c];
            let suit = n % 4;
            let target: [usize; 5] = std::array::from_fn(|i| (8 + i) * 4 + suit);
            let mut rest: Vec<usize> = (0..52).filter(|i| i / 4 != 12 && !target.contains(i)).collect();
            scramble(&mut rest, n as u64);
            rest.truncate(n - 5);
            let mut all = target.to_vec();
            all.extend(&rest);
            all.sort();
            let mut h = Hand::new(env, &all);
            for (k, pos) in crate::p_hands::pair_cover(n, 5).iter().enumerate() {
                if k % 8 != part || n >= 18 && k / 8 % every != 0 {
                    continue;
                }
                let (mut t, mut o) = (0, 0);
                let ids: Vec<usize> = (0..n)
                    .map(|i| {
                        if t < 5 && pos[t] == i {
                            t += 1;
                            target[(t + k) % 5]
                        } else {
                            o += 1;
                            rest[(o + k) % rest.len()]
                        }
                    })
                    .collect();
                ctx.note(mask(&ids));
                h.cards = env.cards(&ids);
                h.judge(env, env.evaluator().evaluate(&h.cards), || format!("in the order {}", hand_text(&ids)));
                ctx.traces += 1;
                ctx.transitions += 2;
                ctx.states += 1;
            }
            ctx.outcome(n as u64);
        })
        .describe(crate::p_hands::describe_mask),
    );
    v.push(
        family("one-buffer", "a hand of each strength with 0 to 3 more cards in one buffer, one card at a time replaced in place by every other card: each answer fits the buffer as it is", 7462usize.div_ceil(8), move |c, ctx| {
            let e = Evaluator::clone(env.evaluator());
            for i in c * 8..(c * 8 + 8).min(7462) {
                let mut ids = padded(&env.strengths().rep[i], i % 4);
                let n = ids.len();
                let mut buf = env.cards(&ids);
                ctx.note((i as u64) << 32);
                for p in 0..n {
                    for x in 0..52 {
                        // also repeats
                        if (x + i) % 3 != 0 {
                            continue;
                        }
                        let old = ids[p];
                        ids[p] = x;
                        buf[p] = env.deck()[x];
                        let mut h = Hand::new(env, &ids);
                        h.cards.clone_from(&buf);
                        h.judge(env, e.evaluate(&buf), || format!("after card {p} of the same buffer was replaced"));
                        if x % 2 == 0 {
                            ids[p] = old;
                            buf[p] = env.deck()[old];
                        }
                        ctx.traces += 1;
                        ctx.transitions += 1;
                    }
                }
                ctx.states += 1;
            }
        })
        .describe(|n| format!("one buffer, strength {}", n >> 32)),
    );
    v
}

fn binom(n: usize, k: usize) -> usize {
    if k > n {
        return 0;
    }
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}
