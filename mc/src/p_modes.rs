//! C19: what the crate shows, recorded for comparison between builds. The
//! other properties' explorations are compared too (see modes.rs); here is
//! what they leave open: debug texts, order of a fresh deck, constants.

use std::{
    collections::hash_map::DefaultHasher,
    fmt::{Debug, Display},
    hash::{Hash, Hasher},
};

use poker::{box_cards, card, cards, deck, Card, Eval, EvalError, Evaluator, Rank, Suit};

use crate::{
    engine::{family, Ctx, Family},
    env::*,
    refm::{self, hand_text},
};

fn h(x: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn see(ctx: &mut Ctx, x: impl Hash) {
    ctx.mix(h(x));
    ctx.transitions += 1;
}

fn texts<T: Debug + Display>(ctx: &mut Ctx, x: &T) {
    see(ctx, format!("{x}|{x:?}|{x:#?}|{x:>20}|{x:<9}|{x:^12}|{x:.1}|{x:+}|{x:08}"));
}

fn sorted_words(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split_whitespace().map(|w| w.trim_matches(',').to_string()).collect();
    v.sort();
    v
}

fn answer(ctx: &mut Ctx, r: &Result<Eval, EvalError>) {
    match r {
        Ok(e) => {
            see(ctx, format!("{e:?} {:?}", e.class()));
            texts(ctx, e);
            see(ctx, e);
        }
        Err(e) => {
            see(ctx, format!("{e:?}"));
            see(ctx, sorted_words(&e.to_string()));
        }
    }
    ctx.traces += 1;
    ctx.states += 1;
}

pub fn c19(env: &Env) -> Vec<Family<'_>> {
    let mut v = vec![
        family("constants", "cards, ranks, suits, their texts in every format, constants of results, macros", 1, |_, ctx| {
            for i in 0..52 {
                let c = refm::card(i);
                texts(ctx, &c);
                see(ctx, (c, c.unique_integer(), c.rank_suit_string(), c.rank() as i32, c.suit() as i32));
                see(ctx, Card::new(c.rank(), c.suit()));
                for x in [c.rank_suit_string(), c.to_string()] {
                    see(ctx, format!("{:?}", x.parse::<Card>()));
                }
            }
            for r in refm::RANKS {
                texts(ctx, &r);
                see(ctx, (r, r.as_char()));
            }
            for s in refm::SUITS {
                texts(ctx, &s);
                see(ctx, (s, s.as_char(), s.as_pretty_char()));
            }
            texts(ctx, &Eval::BEST);
            texts(ctx, &Eval::WORST);
            see(ctx, format!("{:?}", cards!("Ac 2d xx 3 Ts").collect::<Vec<_>>()));
            see(ctx, box_cards!([card!(Ace, Spades)], cards!(Two of Hearts, Three of Clubs)));
            see(ctx, format!("{:?}", (Rank::try_from('x'), Suit::try_from('X'), Card::try_from_chars('T', 's'))));
        }),
        family("fresh-deck", "the order of a fresh deck and what is left after any number of steps, also huge ones", 60, |k, ctx| {
            see(ctx, deck::generate().collect::<Vec<_>>());
            let mut d = deck::generate();
            see(ctx, (d.nth(k), d.size_hint(), d.next(), d.nth(k / 2), d.size_hint()));
            see(ctx, d.collect::<Vec<_>>());
            see(ctx, deck::generate().step_by(k + 1).collect::<Vec<_>>());
            see(ctx, (deck::generate().skip(k).count(), deck::generate().take(k).last()));
            for n in [usize::MAX, usize::MAX - 1, 1 << 32, (1 << 31) - 1, (1 << 63) - k] {
                let mut d = deck::generate();
                d.nth(k);
                see(ctx, (d.nth(n), d.next(), d.size_hint()));
            }
            ctx.states += 1;
        }),
        family("evaluators", "the answers of evaluators made in different ways, their equality", 1, |_, ctx| {
            let (a, b) = (Evaluator::new(), Evaluator::default());
            see(ctx, (a == b, a == a.clone()));
            for n in 0..30usize {
                for k in 0..30 {
                    let l: Vec<Card> = (0..n).map(|i| refm::card((i * (k % 5 + 1) + k) % (30 + k % 22))).collect();
                    if n > 14 && n < 26 {
                        continue;
                    }
                    if n >= 26 && k % 6 == 0 {
                        continue;
                    }
                    for e in [&a, &b] {
                        answer(ctx, &e.evaluate(&l));
                    }
                }
            }
        }),
        family("strengths", "one hand of every strength in five, six and seven cards: all texts", 746, |c, ctx| {
            let st = env.strengths();
            for i in (c * 10..c * 10 + 10).filter(|&i| i < st.len()) {
                ctx.note(mask(&st.rep[i]));
                let mut l = st.rep[i].to_vec();
                for _ in 0..3 {
                    answer(ctx, &env.evaluator().evaluate(env.cards(&l)));
                    let next = (0..52).map(|k| (k * 7 + i) % 52).find(|k| !l.contains(k)).unwrap();
                    l.insert(i % l.len(), next);
                }
            }
        })
        .describe(|m| format!("evaluation around the cards {}", refm::mask_text(m))),
        family("lists", "every list of up to 3 cards, and of 4 to 70 cards in 30 patterns with and without repeats", 52 + 67, |c, ctx| {
            let all = |ids: &[usize], ctx: &mut Ctx| answer(ctx, &env.evaluator().evaluate(env.cards(ids)));
            if c < 52 {
                if c == 0 {
                    all(&[], ctx);
                }
                all(&[c], ctx);
                for b in 0..52 {
                    all(&[c, b], ctx);
                    for d in (b % 3..52).step_by(3) {
                        all(&[c, b, d], ctx);
                    }
                }
            } else {
                let n = c - 48;
                for k in 0..30usize {
                    let ids: Vec<usize> = (0..n).map(|i| match k % 3 {
                        0 => (i * 5 + k) % 52,
                        1 => if i + 1 == n { k } else { (i + k) % 52 },
                        _ => splitmix((i * 31 + k) as u64) as usize % 52,
                    }).collect();
                    let mut u = ids.clone();
                    u.sort_unstable();
                    u.dedup();
                    if u.len() == n && n > 11 && k > 1 {
                        continue;
                    }
                    ctx.note(n as u64);
                    all(&ids, ctx);
                    ctx.sample(|| hand_text(&ids));
                }
            }
        }),
        family("larger-hands", "6 to 10 distinct cards: 52 windows of 64 deck orders each", 5 * 64, |c, ctx| {
            let (n, k) = (6 + c % 5, c / 5);
            let mut all: Vec<usize> = (0..52).collect();
            match k {
                0 => {}
                1 => all.sort_by_key(|i| (i % 4, i / 4)),
                2 => all.sort_by_key(|i| (i % 4, 12 - i / 4)),
                k => scramble(&mut all, k as u64),
            }
            for w in 0..52 {
                let ids: Vec<usize> = (0..n).map(|i| all[(w + i) % 52]).collect();
                ctx.note(mask(&ids));
                answer(ctx, &env.evaluator().evaluate(env.cards(&ids)));
            }
        })
        .describe(|m| format!("evaluation of the cards {}", refm::mask_text(m))),
        family("strings", "every string of up to 3 characters over a mixed alphabet, as card and within a list", 26, |a, ctx| {
            let al: Vec<char> = "23456789TJQKAchsd1aC \té♠\u{0}\u{10ffff}".chars().collect();
            let al: Vec<char> = al.into_iter().chain(['🂡', '\n']).take(26).collect();
            let one = |s: &str, ctx: &mut Ctx| {
                let r = s.parse::<Card>();
                see(ctx, format!("{r:?}"));
                if let Err(e) = r {
                    see(ctx, e.to_string());
                }
                see(ctx, format!("{:?}", Card::parse_to_iter([s, "Ac", s]).try_collect::<Vec<_>>()));
                see(ctx, Card::parse_to_iter([s, "Ac", s]).filter_map(Result::ok).collect::<Vec<_>>());
                ctx.traces += 1;
                ctx.states += 1;
            };
            if a == 0 {
                one("", ctx);
            }
            let x = al[a];
            one(&x.to_string(), ctx);
            for &y in &al {
                one(&format!("{x}{y}"), ctx);
                see(ctx, format!("{:?}", Card::try_from_chars(x, y)));
                for &z in &al {
                    one(&format!("{x}{y}{z}"), ctx);
                }
            }
        }),
    ];
    #[cfg(feature = "rand")]
    v.push(family("shuffles", "shuffles by 200 seeded generators of three kinds", 200, |k, ctx| {
        use rand::{rngs::{mock::StepRng, StdRng}, SeedableRng};
        see(ctx, deck::shuffled_with(&mut StdRng::seed_from_u64(k as u64)));
        see(ctx, deck::shuffled_with(&mut StepRng::new(k as u64, 0x9E37_79B9_7F4A_7C15)));
        let mut g: Box<dyn rand::RngCore> = Box::new(StdRng::seed_from_u64(!(k as u64)));
        see(ctx, deck::shuffled_with(&mut *g));
        see(ctx, deck::shuffled_with(&mut g));
        see(ctx, deck::shuffled().len());
        ctx.traces += 5;
        ctx.states += 1;
    }));
    v
}
