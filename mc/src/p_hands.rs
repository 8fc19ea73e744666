//! C01, C02, C03, C07: what a hand is worth.

use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use poker::{Card, Eval};

use crate::{
    engine::{engine_error, family, Ctx, Family},
    ensure,
    env::*,
    refm::{self, bit, class_of, hand_text, mask_text, strength},
};

fn cards_text(c: &[Card]) -> String {
    c.iter()
        .map(|c| {
            let r = refm::RANKS.iter().position(|&r| r == c.rank()).unwrap_or(0);
            let s = refm::SUITS.iter().position(|&s| s == c.suit()).unwrap_or(0);
            refm::text(r * 4 + s)
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn hash(e: &Eval) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

pub fn describe_mask(n: u64) -> String { format!("evaluation of the cards {}", mask_text(n)) }

#[inline]
fn eval(env: &Env, cards: &[Card], ids: &[usize]) -> Eval {
    match env.evaluator().evaluate(cards) {
        Ok(e) => e,
        Err(e) => crate::engine::fail(format!("valid hand {} (order {}) refused: {e:?}", hand_text(ids), cards_text(cards))),
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(env: &Env) -> Vec<Family<'_>> {
    let heads = pairs_for(5);
    let heads2 = heads.clone();
    let perms: Vec<[usize; 5]> = permutations(5).iter().map(|p| std::array::from_fn(|i| p[i])).collect();
    let published = [1_302_540u64, 1_098_240, 123_552, 54_912, 10_200, 5_108, 3_744, 624, 40];
    vec![
        family(
            "reference-model-self-check",
            "both rule books agree on all C(52,5) hands and give the published category counts",
            1,
            move |_, ctx| {
                let mut count = [0u64; 9];
                for &h in &heads2 {
                    subsets_in_chunk(5, h, &mut |ids| {
                        let s = strength(mask(ids));
                        let five = [ids[0], ids[1], ids[2], ids[3], ids[4]];
                        if s != refm::naive_five(&five) {
                            engine_error(format!("rule books differ on {}", hand_text(ids)));
                        }
                        count[refm::cat(s) as usize] += 1;
                    });
                    ctx.beat();
                }
                if count != published {
                    engine_error(format!("category counts {count:?}"));
                }
            },
        ),
        family("five-cards-all-orders", "all C(52,5) = 2,598,960 sets x all 120 orders", heads.len(), move |c, ctx| {
            let deck = env.deck();
            let (mut states, mut traces) = (0u64, 0u64);
            let mut outs = std::collections::BTreeSet::new();
            subsets_in_chunk(5, heads[c], &mut |ids| {
                let m = mask(ids);
                ctx.note(m);
                let s = strength(m);
                let want = class_of(s);
                for p in &perms {
                    let cards = [deck[ids[p[0]]], deck[ids[p[1]]], deck[ids[p[2]]], deck[ids[p[3]]], deck[ids[p[4]]]];
                    let got = eval(env, &cards, ids).class();
                    ensure!(got == want, "{} is {want:?}, evaluated as {got:?}", cards_text(&cards));
                }
                states += 1;
                traces += 120;
                outs.insert(refm::class_key(s));
                ctx.sample(|| format!("{} in 120 orders -> {want:?}", hand_text(ids)));
            });
            ctx.states += states;
            ctx.traces += traces;
            ctx.transitions += 2 * traces; // evaluation succeeded, class compared
            for o in outs {
                ctx.outcome((o.0 as u64) << 16 | (o.1 as u64) << 8 | o.2 as u64);
            }
        })
        .describe(describe_mask),
    ]
}

// ---------------------------------------------------------------- C02

fn check_pair(a: Eval, b: Eval, want: Ordering, what: impl Fn() -> String) -> u64 {
    let mut n = 0;
    macro_rules! is {
        ($e:expr, $w:expr) => {{
            n += 1;
            let (g, w) = ($e, $w);
            ensure!(g == w, "{}: {} gives {:?}, poker ranking gives {:?}", what(), stringify!($e), g, w);
        }};
    }
    is!(a.cmp(&b), want);
    is!(a.partial_cmp(&b), Some(want));
    is!(a == b, want == Ordering::Equal);
    is!(a != b, want != Ordering::Equal);
    is!(a < b, want == Ordering::Less);
    is!(a <= b, want != Ordering::Greater);
    is!(a > b, want == Ordering::Greater);
    is!(a >= b, want != Ordering::Less);
    is!(a.is_better_than(b), want == Ordering::Greater);
    is!(a.is_worse_than(b), want == Ordering::Less);
    is!(a.is_equal_to(b), want == Ordering::Equal);
    // max/min of two results must be (tie with) the better/worse one
    let (hi, lo) = if want == Ordering::Less { (b, a) } else { (a, b) };
    is!(a.max(b).is_equal_to(hi) && a.max(b).class() == hi.class(), true);
    is!(a.min(b).is_equal_to(lo) && a.min(b).class() == lo.class(), true);
    n
}

pub fn c02(env: &Env) -> Vec<Family<'_>> {
    let heads = pairs_for(5);
    let n = 7462usize;
    vec![
        family("extremes", "published best and worst against every strength", 1, move |_, ctx| {
            let st = env.strengths();
            let reps = env.reps();
            for (i, &e) in reps.iter().enumerate() {
                ctx.note(i as u64);
                let t = || format!("strength {} ({})", i, hand_text(&st.rep[i]));
                ctx.transitions += check_pair(Eval::BEST, e, (n - 1).cmp(&i), || format!("BEST vs {}", t()));
                ctx.transitions += check_pair(e, Eval::BEST, i.cmp(&(n - 1)), || format!("{} vs BEST", t()));
                ctx.transitions += check_pair(Eval::WORST, e, 0.cmp(&i), || format!("WORST vs {}", t()));
                ctx.transitions += check_pair(e, Eval::WORST, i.cmp(&0), || format!("{} vs WORST", t()));
                ctx.traces += 4;
            }
            ensure!(hash(&Eval::BEST) == hash(&reps[n - 1]), "BEST hashes unlike a royal flush");
            ensure!(hash(&Eval::WORST) == hash(&reps[0]), "WORST hashes unlike 7-5-4-3-2");
            ctx.states += 2;
        }),
        family("all-pairs-of-strengths", "all 7,462^2 ordered pairs of strengths, every comparison", n, move |i, ctx| {
            let st = env.strengths();
            let reps = env.reps();
            let a = reps[i];
            let mut t = 0;
            for (j, &b) in reps.iter().enumerate() {
                t += check_pair(a, b, i.cmp(&j), || format!("{} vs {}", hand_text(&st.rep[i]), hand_text(&st.rep[j])));
            }
            ctx.beat();
            ctx.states += 1;
            ctx.traces += n as u64;
            ctx.transitions += t;
            ctx.outcome(i as u64);
            if i == 0 {
                ctx.sample(|| format!("{} < {}", hand_text(&st.rep[0]), hand_text(&st.rep[1])));
            }
        }),
        family(
            "every-hand-ties-with-its-strength",
            "all 2,598,960 five-card hands: equal to the representative of their strength, strictly between the neighbouring strengths, same hash",
            heads.len(),
            move |c, ctx| {
                let deck = env.deck();
                let st = env.strengths();
                let reps = env.reps();
                let (mut k, mut t) = (0u64, 0u64);
                subsets_in_chunk(5, heads[c], &mut |ids| {
                    let m = mask(ids);
                    ctx.note(m);
                    let i = st.idx(strength(m));
                    let cards: [Card; 5] = std::array::from_fn(|x| deck[ids[(x * 3 + 1) % 5]]);
                    let e = eval(env, &cards, ids);
                    t += check_pair(e, reps[i], Ordering::Equal, || format!("{} vs {}", hand_text(ids), hand_text(&st.rep[i])));
                    if i > 0 {
                        t += check_pair(e, reps[i - 1], Ordering::Greater, || format!("{} vs {}", hand_text(ids), hand_text(&st.rep[i - 1])));
                    }
                    if i + 1 < n {
                        t += check_pair(e, reps[i + 1], Ordering::Less, || format!("{} vs {}", hand_text(ids), hand_text(&st.rep[i + 1])));
                    }
                    ensure!(hash(&e) == hash(&reps[i]), "{} and {} tie but hash differently", hand_text(ids), hand_text(&st.rep[i]));
                    t += 1;
                    k += 1;
                });
                ctx.states += k;
                ctx.traces += k;
                ctx.transitions += t;
            },
        )
        .describe(describe_mask),
        family("clamping", "every strength between bounds of a grid of 99 strengths, every pair: clamp", 99, move |c, ctx| {
            let reps = env.reps();
            let at = |k: usize| (k * (n - 1)) / 98;
            let (lo, l) = (reps[at(c)], at(c));
            ctx.note(c as u64);
            for h in (c..99).map(at) {
                for (i, x) in reps.iter().enumerate() {
                    let got = (*x).clamp(lo, reps[h]);
                    ensure!(got.is_equal_to(reps[i.clamp(l, h)]), "strength {i} clamped between {l} and {h}");
                }
                ctx.states += n as u64;
                ctx.transitions += n as u64;
            }
            ctx.traces += 1;
        }),
        family("sorting", "sort/max/min of all strengths from 9 starting orders; clamp", 9, move |c, ctx| {
            let reps = env.reps();
            let mut v: Vec<Eval> = reps.to_vec();
            match c {
                0 => {}
                1 => v.reverse(),
                k => scramble(&mut v, k as u64),
            }
            ctx.note(c as u64);
            ensure!(v.iter().copied().max().unwrap().is_equal_to(reps[n - 1]), "max of all results is not the royal flush");
            ensure!(v.iter().copied().min().unwrap().is_equal_to(reps[0]), "min of all results is not 7-5-4-3-2");
            let mut w = v.clone();
            w.sort();
            let mut u = v.clone();
            u.sort_unstable_by(|a, b| b.cmp(a));
            u.reverse();
            for i in 0..n {
                ensure!(w[i].is_equal_to(reps[i]) && w[i].class() == reps[i].class(), "sorted results out of order at {i}");
                ensure!(u[i].is_equal_to(reps[i]), "reverse-sorted results out of order at {i}");
                let cl = v[i].clamp(reps[1000], reps[5000]);
                let at = reps.iter().position(|r| *r == v[i]).unwrap().clamp(1000, 5000);
                ensure!(cl.is_equal_to(reps[at]), "clamp of strength {i}");
                ctx.transitions += 3;
            }
            ctx.states += 1;
            ctx.traces += 3;
        }),
    ]
}

// ---------------------------------------------------------------- C03

struct Judge<'e> {
    env: &'e Env,
    buf: Vec<Card>,
}

impl<'e> Judge<'e> {
    fn new(env: &'e Env) -> Self { Judge { env, buf: Vec::with_capacity(64) } }

    /// Evaluate these cards in this order and compare with the best five.
    #[inline]
    fn check(&mut self, ctx: &mut Ctx, ids: &[usize], m: u64) {
        let deck = self.env.deck();
        self.buf.clear();
        self.buf.extend(ids.iter().map(|&i| deck[i]));
        ctx.note(m);
        let s = strength(m);
        let st = self.env.strengths();
        let want = self.env.reps()[st.idx(s)];
        let e = eval(self.env, &self.buf, ids);
        ensure!(
            e == want && e.class() == class_of(s),
            "{} cards {}: best five is {} (like {}), evaluated as {:?} {}",
            ids.len(),
            hand_text(ids),
            refm::name_of(s),
            hand_text(&st.rep[st.idx(s)]),
            e.class(),
            if e > want { "(too strong)" } else if e < want { "(too weak)" } else { "" }
        );
        ctx.traces += 1;
        ctx.transitions += 3;
    }
}

/// Masks of 13 ranks grouped by size.
fn masks_by_size() -> Vec<Vec<u16>> {
    let mut v = vec![vec![]; 14];
    for m in 0..8192u16 {
        v[m.count_ones() as usize].push(m);
    }
    v
}

/// One set for every class of n-card sets under suit renaming.
struct Canon {
    by: Vec<Vec<u16>>,
    /// (sizes, first mask)
    chunks: Vec<([usize; 4], u16)>,
}

impl Canon {
    fn new(n: usize) -> Self {
        let by = masks_by_size();
        let mut chunks = vec![];
        for a in (0..=13usize).rev() {
            for b in (0..=a).rev() {
                for c in (0..=b).rev() {
                    for d in (0..=c).rev() {
                        if a + b + c + d == n {
                            for &m in &by[a] {
                                chunks.push(([a, b, c, d], m));
                            }
                        }
                    }
                }
            }
        }
        Canon { by, chunks }
    }

    fn visit(&self, c: usize, f: &mut impl FnMut([u16; 4])) {
        let ([sa, sb, sc, sd], a) = self.chunks[c];
        for &b in &self.by[sb] {
            if sa == sb && b > a {
                continue;
            }
            for &cc in &self.by[sc] {
                if sb == sc && cc > b {
                    continue;
                }
                for &d in &self.by[sd] {
                    if sc == sd && d > cc {
                        continue;
                    }
                    f([a, b, cc, d]);
                }
            }
        }
    }
}

fn ids_of(masks: [u16; 4], suits: &[usize], out: &mut [usize; 52]) -> usize {
    let mut n = 0;
    for k in 0..4 {
        let mut m = masks[k];
        while m != 0 {
            let r = m.trailing_zeros() as usize;
            out[n] = r * 4 + suits[k];
            n += 1;
            m &= m - 1;
        }
    }
    n
}

fn canon_family<'a>(env: &'a Env, name: &'static str, n: usize) -> Family<'a> {
    let canon = Canon::new(n);
    let suits = permutations(4);
    let chunks = canon.chunks.len();
    family(
        name,
        format!("one {n}-card hand of every class under suit renaming (suits and card order picked by a fixed hash)"),
        chunks,
        move |c, ctx| {
            let mut j = Judge::new(env);
            let mut ids = [0usize; 52];
            canon.visit(c, &mut |ms| {
                let h = splitmix((ms[0] as u64) | (ms[1] as u64) << 16 | (ms[2] as u64) << 32 | (ms[3] as u64) << 48);
                let k = ids_of(ms, &suits[(h % 24) as usize], &mut ids);
                let m = mask(&ids[..k]);
                scramble(&mut ids[..k], h);
                j.check(ctx, &ids[..k], m);
                ctx.states += 1;
            });
            if c % 97 == 0 && ctx.states > 0 {
                let k = n;
                ctx.sample(|| hand_text(&ids[..k]));
            }
        },
    )
    .describe(describe_mask)
}

fn full_family<'a>(env: &'a Env, name: &'static str, n: usize, orders: usize) -> Family<'a> {
    let heads = pairs_for(n);
    family(
        name,
        format!("all C(52,{n}) sets, {orders} orders each (ascending, descending, hashed)"),
        heads.len(),
        move |c, ctx| {
            let mut j = Judge::new(env);
            let mut cats = [false; 9];
            let mut ord = [0usize; 16];
            subsets_in_chunk(n, heads[c], &mut |ids| {
                let m = mask(ids);
                for o in 0..orders {
                    ord[..n].copy_from_slice(ids);
                    match o {
                        0 if orders > 1 => {}
                        1 => ord[..n].reverse(),
                        _ => scramble(&mut ord[..n], m.wrapping_add(o as u64)),
                    }
                    j.check(ctx, &ord[..n], m);
                }
                ctx.states += 1;
                cats[refm::cat(strength(m)) as usize] = true;
                ctx.sample(|| hand_text(&ord[..n]));
            });
            for (i, b) in cats.iter().enumerate() {
                if *b {
                    ctx.outcome(i as u64);
                }
            }
        },
    )
    .describe(describe_mask)
}

/// Every way of placing the five best cards among n positions.
fn position_family<'a>(env: &'a Env, name: &'static str, flushy: bool, sizes: std::ops::RangeInclusive<usize>) -> Family<'a> {
    // best five, then filler that cannot help
    let (target, filler): ([usize; 5], Vec<usize>) = if flushy {
        let t: [usize; 5] = std::array::from_fn(|i| (8 + i) * 4 + 3);
        // every other card except the aces: no second royal flush
        let mut f: Vec<usize> = (0..52).filter(|i| i / 4 != 12 && !t.contains(i)).collect();
        scramble(&mut f, 7);
        (t, f)
    } else {
        // four aces and a king, at most four cards of any suit, no other quads
        let t = [48, 49, 50, 51, 44];
        let f = vec![0 * 4 + 1, 7 * 4 + 2, 3 * 4 + 3, 9 * 4 + 0, 5 * 4 + 1, 2 * 4 + 2, 8 * 4 + 3, 10 * 4 + 1, 4 * 4 + 2, 6 * 4 + 3, 1 * 4 + 0];
        (t, f)
    };
    let mut chunks = vec![];
    for n in sizes.clone() {
        for a in 0..=n - 5 {
            chunks.push((n, a));
        }
    }
    family(
        name,
        format!(
            "n = {}..={} cards: every choice of 5 positions for the unique best five ({})",
            sizes.start(),
            sizes.end(),
            if flushy { "royal flush" } else { "four aces with king, no flush possible" }
        ),
        chunks.len(),
        move |k, ctx| {
            let (n, a) = chunks[k];
            let mut j = Judge::new(env);
            let mut ids = vec![0usize; n];
            for b in a + 1..n {
                for c in b + 1..n {
                    for d in c + 1..n {
                        for e in d + 1..n {
                            let pos = [a, b, c, d, e];
                            let (mut t, mut f) = (0, 0);
                            for i in 0..n {
                                if t < 5 && pos[t] == i {
                                    // rotate so that each best card visits each place
                                    ids[i] = target[(t + b + c) % 5];
                                    t += 1;
                                } else {
                                    ids[i] = filler[f];
                                    f += 1;
                                }
                            }
                            let m = mask(&ids);
                            j.check(ctx, &ids, m);
                            ctx.states += 1;
                        }
                    }
                }
            }
            ctx.outcome(n as u64);
            ctx.sample(|| hand_text(&ids));
        },
    )
    .describe(describe_mask)
}

/// Sets of five of n positions that together contain every pair of positions.
pub fn pair_cover(n: usize, key: u64) -> Vec<[usize; 5]> {
    let mut left: Vec<Vec<bool>> = vec![vec![true; n]; n];
    let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    scramble(&mut pairs, key);
    let mut v = vec![];
    for (a, b) in pairs {
        if !left[a][b] {
            continue;
        }
        let mut set = vec![a, b];
        while set.len() < 5 {
            // the position that meets most of these for the first time
            let off = splitmix(key ^ (v.len() as u64) << 8 ^ set.len() as u64) as usize % n;
            let next = (0..n)
                .map(|i| (i + off) % n)
                .filter(|i| !set.contains(i))
                .max_by_key(|i| set.iter().filter(|j| left[*i.min(*j)][*i.max(*j)]).count())
                .unwrap();
            set.push(next);
        }
        set.sort();
        for i in 0..5 {
            for j in i + 1..5 {
                left[set[i]][set[j]] = false;
            }
        }
        v.push(set.try_into().unwrap());
    }
    v
}

/// Large hands with a unique best five at sets of positions that cover all pairs.
fn large_position_family<'a>(env: &'a Env, covers: u64) -> Family<'a> {
    // the largest first
    let chunks: Vec<(usize, u64)> = (18..=49).rev().flat_map(|n| (0..covers * 8).map(move |k| (n, k))).collect();
    family(
        "best-five-positions-large",
        format!("n = 18..=49 cards: {covers} families of choices of 5 positions, each containing every pair of positions, for the unique best five (royal flush)"),
        chunks.len(),
        move |c, ctx| {
            let (n, part) = chunks[c];
            let mut j = Judge::new(env);
            for (k, pos) in pair_cover(n, part / 8).iter().enumerate() {
                if k as u64 % 8 != part % 8 {
                    continue;
                }
                let suit = (k + n) % 4;
                let target: [usize; 5] = std::array::from_fn(|i| (8 + i) * 4 + suit);
                let mut f: Vec<usize> = (0..52).filter(|i| i / 4 != 12 && !target.contains(i)).collect();
                scramble(&mut f, (k + n) as u64);
                let (mut t, mut o) = (0, 0);
                let ids: Vec<usize> = (0..n)
                    .map(|i| {
                        if t < 5 && pos[t] == i {
                            t += 1;
                            target[(t + k) % 5]
                        } else {
                            o += 1;
                            f[o - 1]
                        }
                    })
                    .collect();
                j.check(ctx, &ids, mask(&ids));
                ctx.states += 1;
                ctx.sample(|| hand_text(&ids));
            }
            ctx.outcome(n as u64);
        },
    )
    .describe(describe_mask)
}

/// Hands of 8 to 52 cards: every suit takes one of a menu of rank sets.
fn menu_family<'a>(env: &'a Env, max: usize, min: usize, name: &'static str) -> Family<'a> {
    let menu: [u16; 12] = [
        0,
        0b1_0000_0000_0000,
        0b0_0000_0000_1111,
        0b1_1111_0000_0000,
        0b1_0000_0000_1111,
        0b0_1111_0000_0000,
        0b0_0101_0101_0101,
        0b1_0101_0101_0100,
        0b0_0000_1111_1000,
        0b0_0110_0110_0110,
        0b1_1111_1111_1111,
        0b0_0000_1111_1111,
    ];
    let n = menu.len();
    family(
        name,
        format!("hands of {min} to {max} cards: every suit holds one of {n} rank sets ({n}^4 products), 2 orders"),
        n * n * n,
        move |k, ctx| {
            let mut j = Judge::new(env);
            let mut ids = [0usize; 52];
            for x in 0..n {
                let ms = [menu[k % n], menu[k / n % n], menu[k / n / n], menu[x]];
                let c = ids_of(ms, &[0, 1, 2, 3], &mut ids);
                if c < min || c > max {
                    continue;
                }
                let m = mask(&ids[..c]);
                j.check(ctx, &ids[..c], m);
                scramble(&mut ids[..c], m);
                j.check(ctx, &ids[..c], m);
                ctx.states += 1;
                ctx.outcome(c as u64);
                ctx.sample(|| hand_text(&ids[..c]));
            }
        },
    )
    .describe(describe_mask)
}

/// Prefixes of a fixed family of deck orders: every size from 6 to `max`.
fn prefix_family<'a>(env: &'a Env, max: usize, decks: usize) -> Family<'a> {
    family("deck-prefixes", format!("every prefix of 6 to {max} cards of {decks} fixed deck orders"), decks * (max - 5), move |k, ctx| {
        let (d, n) = (k % decks, 6 + k / decks);
        let mut ids: Vec<usize> = (0..52).collect();
        match d {
            0 => {}
            1 => ids.reverse(),
            2 => ids.sort_by_key(|i| (i % 4, i / 4)),
            3 => ids.sort_by_key(|i| (i % 4, 12 - i / 4)),
            _ => scramble(&mut ids, d as u64),
        }
        let mut j = Judge::new(env);
        j.check(ctx, &ids[..n], mask(&ids[..n]));
        ctx.states += 1;
        ctx.outcome(n as u64);
        ctx.sample(|| hand_text(&ids[..n]));
    })
    .describe(describe_mask)
}

/// The deck without a few cards.
fn minus_family<'a>(env: &'a Env, less: usize) -> Family<'a> {
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..52 {
        if less >= 1 {
            sets.push(vec![a]);
        }
        if less >= 2 {
            for b in a + 1..52 {
                sets.push(vec![a, b]);
            }
        }
    }
    // take away every ten-to-ace combination so that no royal flush remains
    let extra: Vec<usize> = (0..4).map(|s| 12 * 4 + s).collect();
    family("deck-minus-few", format!("the deck without up to {less} cards, with and without the aces"), sets.len() * 2, move |k, ctx| {
        let out = &sets[k / 2];
        let ids: Vec<usize> =
            (0..52).filter(|i| !out.contains(i) && (k % 2 == 0 || !extra.contains(i))).collect();
        let mut j = Judge::new(env);
        let mut v = ids.clone();
        scramble(&mut v, k as u64);
        j.check(ctx, &v, mask(&v));
        ctx.states += 1;
        ctx.outcome(v.len() as u64);
    })
    .describe(describe_mask)
}

/// Two complete five-card hands in one: every category against every category.
fn union_family<'a>(env: &'a Env, stride: usize) -> Family<'a> {
    let picks: Vec<usize> = (0..7462).step_by(stride).collect();
    let n = picks.len();
    family(
        "two-hands-in-one",
        format!("unions of two five-card hands (every {stride}th strength x every {stride}th strength, second hand with suits renamed), 5 to 10 cards"),
        n,
        move |i, ctx| {
            let st = env.strengths();
            let mut j = Judge::new(env);
            for k in 0..n {
                let mut ids = st.rep[picks[i]].to_vec();
                for &c in &st.rep[picks[k]] {
                    let c = c / 4 * 4 + (c % 4 + 1) % 4;
                    if !ids.contains(&c) {
                        ids.push(c);
                    }
                }
                if ids.len() < 6 {
                    continue;
                }
                let m = mask(&ids);
                if k % 2 == 1 {
                    scramble(&mut ids, m);
                }
                j.check(ctx, &ids, m);
                ctx.states += 1;
            }
            ctx.outcome(i as u64);
        },
    )
    .describe(describe_mask)
}

pub fn c03(env: &Env) -> Vec<Family<'_>> {
    let heads6 = pairs_for(6);
    let published7 = [23_294_460u64, 58_627_800, 31_433_400, 6_461_620, 6_180_020, 4_047_644, 3_473_184, 224_848, 41_584];
    let heads7 = pairs_for(7);
    let tot7: [std::sync::atomic::AtomicU64; 9] = Default::default();
    let done7 = std::sync::atomic::AtomicUsize::new(0);
    let n7 = heads7.len();
    let mut v = vec![
        family("reference-model-self-check-6", "reference best hand = maximum over the six five-card subsets, all C(52,6) hands", heads6.len(), move |c, ctx| {
            subsets_in_chunk(6, heads6[c], &mut |ids| {
                let m = mask(ids);
                let best = ids.iter().map(|&i| strength(m & !bit(i))).max().unwrap();
                if best != strength(m) {
                    engine_error(format!("reference best hand of {} is wrong", hand_text(ids)));
                }
            });
            ctx.beat();
        }),
        family("reference-model-self-check-7", "category counts of all C(52,7) hands are the published ones", n7, move |c, ctx| {
            use std::sync::atomic::Ordering::SeqCst;
            let mut count = [0u64; 9];
            subsets_in_chunk(7, heads7[c], &mut |ids| count[refm::cat(strength(mask(ids))) as usize] += 1);
            ctx.beat();
            for i in 0..9 {
                tot7[i].fetch_add(count[i], SeqCst);
            }
            if done7.fetch_add(1, SeqCst) + 1 == n7 {
                for i in 0..9 {
                    if tot7[i].load(SeqCst) != published7[i] {
                        engine_error(format!("seven-card count of category {i}"));
                    }
                }
            }
        }),
        full_family(env, "six-cards-all", 6, if env.thorough() { 12 } else { 4 }),
        full_family(env, "seven-cards-all", 7, if env.thorough() { 4 } else { 1 }),
        position_family(env, "best-five-positions-no-flush", false, 6..=16),
        position_family(env, "best-five-positions-flush", true, 6..=if env.thorough() { 24 } else { 17 }),
        large_position_family(env, if env.thorough() { 24 } else { 1 }),
        union_family(env, if env.thorough() { 1 } else { 5 }),
        prefix_family(env, 52, if env.thorough() { 200 } else { 8 }),
        minus_family(env, if env.thorough() { 2 } else { 1 }),
    ];
    if env.thorough() {
        v.push(menu_family(env, 52, 8, "suit-products"));
        v.push(full_family(env, "eight-cards-all", 8, 1));
        v.push(canon_family(env, "nine-cards-up-to-suits", 9));
    } else {
        v.push(menu_family(env, 22, 8, "suit-products"));
        v.push(canon_family(env, "eight-cards-up-to-suits", 8));
    }
    v
}

// ---------------------------------------------------------------- C07

pub fn c07(env: &Env) -> Vec<Family<'_>> {
    let mut v = vec![];
    for (name, n, all) in [("five-cards-24-renamings", 5, true), ("six-cards-24-renamings", 6, true), ("seven-cards-generators", 7, false)] {
        let heads = pairs_for(n);
        let gens: Vec<Vec<usize>> = if all {
            permutations(4).into_iter().skip(1).collect()
        } else {
            // a transposition and a 4-cycle generate all 24 renamings
            vec![vec![1, 0, 2, 3], vec![1, 2, 3, 0]]
        };
        v.push(
            family(
                name,
                format!("all C(52,{n}) hands x {} suit renamings{}", gens.len(), if all { "" } else { " (generators of the whole group, applied to every hand)" }),
                heads.len(),
                move |c, ctx| {
                    let deck = env.deck();
                    let mut a = [deck[0]; 7];
                    let mut b = [deck[0]; 7];
                    subsets_in_chunk(n, heads[c], &mut |ids| {
                        for i in 0..n {
                            a[i] = deck[ids[i]];
                        }
                        ctx.note(mask(ids));
                        let e = eval(env, &a[..n], ids);
                        for g in &gens {
                            for i in 0..n {
                                b[i] = deck[ids[i] / 4 * 4 + g[ids[i] % 4]];
                            }
                            let f = eval(env, &b[..n], ids);
                            ensure!(
                                e == f && e.class() == f.class() && e.is_equal_to(f),
                                "{} is {:?} but with suits renamed ({}) it is {:?}{}",
                                cards_text(&a[..n]), e.class(), cards_text(&b[..n]), f.class(),
                                if e == f { "" } else { " and they do not tie" }
                            );
                        }
                        ctx.states += 1;
                        ctx.traces += 1 + gens.len() as u64;
                        ctx.transitions += 3 * gens.len() as u64;
                        ctx.sample(|| hand_text(ids));
                    });
                },
            )
            .describe(describe_mask),
        );
    }
    let decks = if env.thorough() { 40 } else { 6 };
    v.push(
        family("larger-hands", format!("prefixes of 8 to 30 cards of {decks} deck orders x 23 renamings"), decks * 23, move |k, ctx| {
            let (d, n) = (k % decks, 8 + k / decks);
            let mut ids: Vec<usize> = (0..52).collect();
            scramble(&mut ids, 1000 + d as u64);
            let ids = &ids[..n];
            ctx.note(mask(ids));
            let e = eval(env, &env.cards(ids), ids);
            for g in permutations(4).iter().skip(1) {
                let b: Vec<usize> = ids.iter().map(|i| i / 4 * 4 + g[i % 4]).collect();
                let f = eval(env, &env.cards(&b), &b);
                ensure!(e == f && e.class() == f.class(), "{} and {} differ only in suit names but not equal", hand_text(ids), hand_text(&b));
                ctx.traces += 1;
                ctx.transitions += 2;
            }
            ctx.states += 1;
            ctx.outcome(n as u64);
        })
        .describe(describe_mask),
    );
    v.push(
        family("largest-hands", "18 to 49 cards with one royal flush and prefixes of 31 to 51 cards of a deck order x 23 renamings", (32 + 21) * 23, move |k, ctx| {
            let g = &permutations(4)[1 + k % 23];
            // the largest first
            let k = 32 + 21 - 1 - k / 23;
            let ids: Vec<usize> = if k < 32 {
                let n = 18 + k;
                let suit = k % 4;
                let mut f: Vec<usize> = (0..52).filter(|i| i / 4 != 12 && !(i / 4 >= 8 && i % 4 == suit)).collect();
                scramble(&mut f, k as u64);
                let mut v: Vec<usize> = (8..13).map(|r| r * 4 + suit).chain(f.into_iter().take(n - 5)).collect();
                scramble(&mut v, k as u64 + 1);
                v
            } else {
                let mut v: Vec<usize> = (0..52).collect();
                scramble(&mut v, 2000);
                v.truncate(31 + k - 32);
                v
            };
            ctx.note(mask(&ids));
            let e = eval(env, &env.cards(&ids), &ids);
            let b: Vec<usize> = ids.iter().map(|i| i / 4 * 4 + g[i % 4]).collect();
            let f = eval(env, &env.cards(&b), &b);
            ensure!(e == f && e.class() == f.class(), "{} and {} differ only in suit names but are not equal", hand_text(&ids), hand_text(&b));
            ctx.traces += 2;
            ctx.transitions += 2;
            ctx.states += 1;
            ctx.outcome(ids.len() as u64);
        })
        .describe(describe_mask),
    );
    v
}
