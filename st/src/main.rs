//! C20: the free function over static tables against the evaluator. The
//! `poker` used here is /repo's source compiled with `static_lookup`.

use std::sync::OnceLock;

use mc::{
    cli,
    engine::{family, Ctx, Family},
    ensure,
    env::{mask, pairs_for, scramble, splitmix, subsets_in_chunk, Env},
    refm::{self, hand_text, mask_text},
};
use poker::{
    evaluate::static_lookup,
    Card, Eval, EvalError, Evaluator, Rank, Suit,
};

fn deck() -> &'static [Card; 52] {
    static D: OnceLock<[Card; 52]> = OnceLock::new();
    D.get_or_init(|| {
        const R: [Rank; 13] = [
            Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight,
            Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
        ];
        std::array::from_fn(|i| {
            let s = refm::text(i).chars().nth(1).unwrap();
            let suit = [(Suit::Clubs, 'c'), (Suit::Hearts, 'h'), (Suit::Spades, 's'), (Suit::Diamonds, 'd')];
            Card::new(R[i / 4], suit.into_iter().find(|x| x.1 == s).unwrap().0)
        })
    })
}

fn dynamic() -> &'static Evaluator {
    static E: OnceLock<Evaluator> = OnceLock::new();
    E.get_or_init(Evaluator::new)
}

fn show(ids: &[usize]) -> String {
    if ids.len() <= 60 {
        hand_text(ids)
    } else {
        format!("{} cards: {} ...", ids.len(), hand_text(&ids[..60]))
    }
}

/// Everything an `Eval` says about itself beyond its strength.
fn says(e: Eval) -> [bool; 10] {
    [
        e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(),
        e.is_flush(), e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(), e.is_royal_flush(),
    ]
}

#[cold]
fn differ(ids: &[usize], a: &Result<Eval, EvalError>, b: &Result<Eval, EvalError>) -> ! {
    let t = |r: &Result<Eval, EvalError>| match r {
        Ok(e) => format!("{e} ({e:?})"),
        Err(EvalError::CardsNotUnique(v)) => format!("CardsNotUnique of {} cards", v.len()),
        Err(e) => format!("error {e:?}"),
    };
    mc::engine::fail(format!("{}: static_lookup::evaluate gives {}, Evaluator::evaluate {}", show(ids), t(a), t(b)))
}

#[inline]
fn same(cards: &[Card], ids: &[usize]) -> Result<Eval, EvalError> {
    let s = static_lookup::evaluate(cards);
    let d = dynamic().evaluate(cards);
    let ok = match (&s, &d) {
        (Ok(a), Ok(b)) => a == b && a.is_equal_to(*b) && a.class() == b.class(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok {
        differ(ids, &s, &d);
    }
    s
}

/// The texts too. The order of the repeated cards in the message is unspecified.
fn same_text(cards: &[Card], ids: &[usize]) -> Result<Eval, EvalError> {
    let s = same(cards, ids);
    let d = dynamic().evaluate(cards);
    match (&s, &d) {
        (Ok(a), Ok(b)) => {
            ensure!(a.to_string() == b.to_string(), "{}: named {a} by the static tables, {b} by the evaluator", show(ids));
            ensure!(says(*a) == says(*b), "{}: the is_ questions differ: {:?}, {:?}", show(ids), says(*a), says(*b));
        }
        (Err(a), Err(b)) => {
            let w = |e: &EvalError| {
                let mut v: Vec<String> = e.to_string().split_whitespace().map(|w| w.trim_matches(|c: char| !c.is_alphanumeric() && c.is_ascii()).to_string()).collect();
                v.sort();
                v
            };
            ensure!(w(a) == w(b), "{}: message {:?} by the static tables, {:?} by the evaluator", show(ids), a.to_string(), b.to_string());
        }
        _ => differ(ids, &s, &d),
    }
    s
}

fn at(ids: &[usize]) -> Vec<Card> { ids.iter().map(|&i| deck()[i]).collect() }

fn describe_mask(n: u64) -> String { format!("evaluation of the cards {}", mask_text(n)) }

fn note_of(ids: &[usize]) -> u64 { (ids.len() as u64) << 40 | ids.iter().take(7).fold(0u64, |a, &i| a * 52 + i as u64) }

fn describe_list(n: u64) -> String {
    let (len, mut x) = ((n >> 40) as usize, n & ((1 << 40) - 1));
    let mut ids = vec![0usize; len.min(7)];
    for i in (0..ids.len()).rev() {
        ids[i] = (x % 52) as usize;
        x /= 52;
    }
    format!("evaluation of {len} card(s), first {}", hand_text(&ids))
}

/// A hand is visited once per class of hands that only differ in the names of
/// the suits: when it is the smallest of the 24.
fn canonical(ids: &[usize]) -> bool {
    let m = ids.iter().fold(0u64, |m, &i| m | 1 << i);
    use mc::env::permutations;
    static P: OnceLock<Vec<[u8; 4]>> = OnceLock::new();
    let ps = P.get_or_init(|| permutations(4).iter().map(|p| std::array::from_fn(|i| p[i] as u8)).collect());
    let pl: [u64; 4] = std::array::from_fn(|s| m >> s & 0x1_1111_1111_1111);
    ps[1..].iter().all(|p| {
        let x = pl[0] << p[0] | pl[1] << p[1] | pl[2] << p[2] | pl[3] << p[3];
        m <= x
    })
}

fn c20(env: &Env) -> Vec<Family<'_>> {
    let mut v = vec![
        #[cfg(feature = "export")]
        family("export", "the exported table data: number of entries, the same on every export", 1, |_, ctx| {
            use poker::evaluate::lookup_table::LookupTable;
            let t = LookupTable::new();
            for _ in 0..16 {
                ensure!(LookupTable::new() == t, "two exports of the table data differ");
                ctx.transitions += 1;
            }
            let (f, u) = (t.flush_lookup.len(), t.unsuited_lookup.len());
            ensure!(f == 1287, "{f} entries for the suited rank combinations, there are 1287");
            ensure!(u == 6175, "{u} entries for the unsuited rank combinations, there are 6175");
            ctx.states += (f + u) as u64;
            ctx.traces += 17;
            ctx.transitions += 2;
        }),
        family("published-strengths", "one hand of each of the 7,462 strengths: the result, its class and name are those of the poker ranking the published tables hold, and all 7,462^2 pairs compare accordingly", 7462, |i, ctx| {
            let st = env.strengths();
            static REPS: OnceLock<Vec<Eval>> = OnceLock::new();
            let reps = REPS.get_or_init(|| {
                st.rep.iter().map(|ids| static_lookup::evaluate(at(ids)).unwrap_or_else(|e| mc::engine::fail(format!("{} refused: {e:?}", hand_text(ids))))).collect()
            });
            ctx.note(mask(&st.rep[i]));
            let want = format!("{:?}", refm::class_of(st.list[i]));
            ensure!(format!("{:?}", reps[i].class()) == want, "{}: class {:?} instead of {want}", hand_text(&st.rep[i]), reps[i].class());
            ensure!(reps[i].to_string() == refm::name_of(st.list[i]), "{}: name {}", hand_text(&st.rep[i]), reps[i]);
            for (j, &o) in reps.iter().enumerate() {
                ensure!(reps[i].cmp(&o) == i.cmp(&j), "{} against {}: {:?}", hand_text(&st.rep[i]), hand_text(&st.rep[j]), reps[i].cmp(&o));
            }
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += 2 + reps.len() as u64;
            ctx.outcome(i as u64);
        })
        .describe(describe_mask),
    ];
    let heads = pairs_for(5);
    v.push(
        family("five-cards", "every set of 5 cards in 8 of its orders; texts compared in one", heads.len(), move |c, ctx| {
            let (mut n, mut t) = (0u64, 0u64);
            subsets_in_chunk(5, heads[c], &mut |ids| {
                let m = mask(ids);
                ctx.note(m);
                let mut l = [ids[0], ids[1], ids[2], ids[3], ids[4]];
                for k in 0..8u64 {
                    scramble(&mut l, m.wrapping_mul(8) + k);
                    let cards = l.map(|i| deck()[i]);
                    let r = if k == 0 { same_text(&cards, &l) } else { same(&cards, &l) };
                    ensure!(r.is_ok(), "{}: both evaluations refuse a valid hand", hand_text(&l));
                    t += 1;
                }
                n += 1;
            });
            ctx.states += n;
            ctx.traces += t;
            ctx.transitions += 3 * t;
        })
        .describe(describe_mask),
    );
    let heads = pairs_for(6);
    v.push(
        family("six-cards", "every set of 6 cards", heads.len(), move |c, ctx| {
            let mut n = 0u64;
            subsets_in_chunk(6, heads[c], &mut |ids| {
                let m = mask(ids);
                ctx.note(m);
                let mut l: [usize; 6] = std::array::from_fn(|i| ids[i]);
                scramble(&mut l, m);
                let cards = l.map(|i| deck()[i]);
                ensure!(same(&cards, &l).is_ok(), "{}: both evaluations refuse a valid hand", hand_text(&l));
                n += 1;
            });
            ctx.states += n;
            ctx.traces += n;
            ctx.transitions += 3 * n;
        })
        .describe(describe_mask),
    );
    let heads = pairs_for(7);
    let whole = env.thorough();
    v.push(
        family(
            "seven-cards",
            if whole { "every set of 7 cards" } else { "every set of 7 cards up to renaming of suits" },
            heads.len(),
            move |c, ctx| {
                let mut n = 0u64;
                subsets_in_chunk(7, heads[c], &mut |ids| {
                    let m = mask(ids);
                    if !whole && !canonical(ids) {
                        return;
                    }
                    ctx.note(m);
                    let mut l: [usize; 7] = std::array::from_fn(|i| ids[i]);
                    scramble(&mut l, m);
                    let cards = l.map(|i| deck()[i]);
                    ensure!(same(&cards, &l).is_ok(), "{}: both evaluations refuse a valid hand", hand_text(&l));
                    n += 1;
                });
                ctx.beat();
                ctx.states += n;
                ctx.traces += n;
                ctx.transitions += 3 * n;
            },
        )
        .describe(describe_mask),
    );
    // hands of 8 and more distinct cards
    let top = if whole { 20 } else { 13 };
    v.push(
        family("larger-hands", format!("8 to {top} distinct cards: 52 windows of 32 deck orders each; 52 cards once"), (top - 7) * 32 + 1, move |c, ctx| {
            let run = |l: &[usize], ctx: &mut Ctx| {
                ctx.note(note_of(l));
                same_text(&at(l), l).unwrap_or_else(|e| mc::engine::fail(format!("{}: both evaluations refuse a valid hand: {e:?}", show(l))));
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 4;
            };
            if c == (top - 7) * 32 {
                run(&(0..52).collect::<Vec<_>>(), ctx);
                return;
            }
            let (n, k) = (8 + c / 32, c % 32);
            let mut all: Vec<usize> = (0..52).collect();
            match k {
                0 => {}
                1 => all.sort_by_key(|i| (i % 4, i / 4)),
                2 => all.sort_by_key(|i| (i % 4, 12 - i / 4)),
                k => scramble(&mut all, k as u64),
            }
            for w in 0..52 {
                let l: Vec<usize> = (0..n).map(|i| all[(w + i) % 52]).collect();
                run(&l, ctx);
            }
        })
        .describe(describe_list),
    );
    for (name, n) in [("lists-of-0", 0usize), ("lists-of-1", 1), ("lists-of-2", 2), ("lists-of-3", 3), ("lists-of-4", 4), ("lists-of-5", 5)] {
        let whole5 = n < 5 || whole;
        let chunks = match n {
            0..=2 => 1,
            3 => 52,
            _ => 2704,
        };
        let bound = if whole5 {
            format!("every list of {n} cards, repetition allowed (52^{n})")
        } else {
            "every list of 5 cards with a repeated card, up to order".to_string()
        };
        v.push(
            family(name, bound, chunks, move |c, ctx| {
                let fixed = match n {
                    0..=2 => 0,
                    3 => 1,
                    _ => 2,
                };
                let mut ids = [0usize; 5];
                if fixed > 0 {
                    ids[0] = if fixed == 1 { c } else { c / 52 };
                    ids[1] = if fixed == 2 { c % 52 } else { 0 };
                }
                if !whole5 {
                    if ids[1] < ids[0] {
                        return;
                    }
                    for i in 2..5 {
                        ids[i] = ids[1];
                    }
                }
                let mut cards = [deck()[0]; 5];
                loop {
                    let distinct = whole5 || ids.windows(2).any(|w| w[0] == w[1]);
                    if distinct {
                        let mut l = ids;
                        if !whole5 {
                            scramble(&mut l, note_of(&ids));
                        }
                        for i in 0..n {
                            cards[i] = deck()[l[i]];
                        }
                        ctx.note(note_of(&l[..n]));
                        if n <= 3 {
                            let _ = same_text(&cards[..n], &l[..n]);
                        } else {
                            let _ = same(&cards[..n], &l[..n]);
                        }
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 1;
                    }
                    let mut i = n;
                    let done = loop {
                        if i == fixed {
                            break true;
                        }
                        i -= 1;
                        ids[i] += 1;
                        if ids[i] < 52 {
                            break false;
                        }
                        ids[i] = 0;
                    };
                    if done {
                        break;
                    }
                    if !whole5 {
                        for i in 2..5 {
                            ids[i] = ids[i].max(ids[i - 1]);
                        }
                    }
                }
            })
            .describe(describe_list),
        );
    }
    let heads = pairs_for(5);
    v.push(
        family("six-and-seven-with-repeats", "every set of 5 cards with each of them, and each pair of them, repeated", heads.len(), move |c, ctx| {
            subsets_in_chunk(5, heads[c], &mut |ids| {
                let m = mask(ids);
                for a in 0..5 {
                    for b in a..5 {
                        let mut l = ids.to_vec();
                        l.push(ids[a]);
                        if b > a {
                            l.push(ids[b]);
                        }
                        scramble(&mut l, m ^ (a * 5 + b) as u64);
                        ctx.note(note_of(&l));
                        ensure!(same(&at(&l), &l).is_err(), "{}: both evaluations accept a repeated card", show(&l));
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 2;
                    }
                }
            });
        })
        .describe(describe_list),
    );
    v.push(
        family("two-card-alphabets", "every pair of cards: every list of length 2 to 8 over the two, texts compared", 52, |a, ctx| {
            for b in a + 1..52 {
                for n in 2..=8usize {
                    for bits in 0..1usize << n {
                        let l: Vec<usize> = (0..n).map(|i| if bits >> i & 1 == 0 { a } else { b }).collect();
                        ctx.note(note_of(&l));
                        let _ = same_text(&at(&l), &l);
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 2;
                    }
                }
            }
        })
        .describe(describe_list),
    );
    v.push(
        family("long-lists", "every length 8..=300 and 2^k-1, 2^k, 2^k+1 up to 2^17+1: repeated decks, one card only, one late repeat", 293 + 27, |k, ctx| {
            let n = if k < 293 { 8 + k } else { (1usize << (9 + (k - 293) / 3)) + (k - 293) % 3 - 1 };
            for w in 0..6usize {
                let l: Vec<usize> = (0..n)
                    .map(|i| match w {
                        0 => i % 7,
                        1 => 51 - i % 52 % (n - 1),
                        2 => k % 52,
                        3 => (i * 5 + k) % 52 % (n - 1),
                        4 => if i == n - 1 { 51 } else { 7 },
                        _ => splitmix((i as u64) << 20 | k as u64) as usize % 7,
                    })
                    .collect();
                if w % 2 == 1 && n < 53 && w < 5 {
                    // distinct apart from one late repeat
                    let mut l: Vec<usize> = (0..n).collect();
                    l[n - 1] = l[(k * 7 + w) % (n - 1)];
                    ctx.note(note_of(&l));
                    let _ = same_text(&at(&l), &l);
                } else {
                    ctx.note(note_of(&l));
                    let _ = same(&at(&l), &l);
                }
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += 2;
            }
        })
        .describe(describe_list),
    );
    // histories: results must not depend on what was evaluated before
    v.push(
        family("sequences", "every ordered pair of 60 lists (valid hands of every class and size, refused lists), static after static and static between evaluator calls, by value, Vec, Box and slice", 60, |a, ctx| {
            let pool = pool(env);
            for b in 0..pool.len() {
                for l in [&pool[a], &pool[b], &pool[a]] {
                    ctx.note(note_of(l));
                    let c = at(l);
                    let r = same_text(&c, l);
                    for (how, o) in [
                        ("Vec", static_lookup::evaluate(c.clone())),
                        ("&Vec", static_lookup::evaluate(&c)),
                        ("Box", static_lookup::evaluate(c.clone().into_boxed_slice())),
                    ] {
                        ensure!(o == r && o.as_ref().map(|e| e.class()) == r.as_ref().map(|e| e.class()), "{}: passed as {how} evaluates to {o:?} instead of {r:?}", show(l));
                        ctx.transitions += 1;
                    }
                    ctx.traces += 4;
                }
                ctx.states += 1;
            }
        })
        .describe(describe_list),
    );
    v
}

fn pool(env: &Env) -> Vec<Vec<usize>> {
    let st = env.strengths();
    let mut v: Vec<Vec<usize>> = (0..40).map(|i| st.rep[i * 7461 / 39].to_vec()).collect();
    for n in 0..5 {
        v.push((10..10 + n).collect());
    }
    for n in [6usize, 7, 8, 9] {
        v.push((0..n).map(|i| (i * 11 + n) % 52).collect());
        v.push((0..n).map(|i| (i * 4) % 52).collect());
    }
    v.push(vec![1, 1]);
    v.push(vec![1, 2, 3, 4, 1]);
    v.push(vec![1, 2, 3, 4, 5, 1]);
    v.push(vec![51; 7]);
    v.push((0..52).chain([9]).collect());
    while v.len() < 60 {
        let k = v.len();
        v.push((0..5).map(|i| (i * 9 + k) % 52).collect());
    }
    v.truncate(60);
    v
}

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> {
    (id == "C20").then(|| {
        (
            c20(env),
            vec![
                "the published tables cannot be downloaded here: the static tables are generated from the table data the crate exports, and compared with the poker ranking",
                "hands of 8 or more cards: bounded families only",
            ],
        )
    })
}

fn main() { cli::cli(families) }
