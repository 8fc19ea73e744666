//! C22: cards.

use mc::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::{mask, pairs_for, scramble, subsets_in_chunk, Env},
    refm::{self, class_key, hand_text},
};

use crate::{
    game::*,
    p_credits::{count, fund, ENDS},
    session::Order,
};

/// Eleven rounds that, when the deck is whole, show all of its cards.
fn sweep(s: &mut Script) {
    for r in [0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 47] {
        s.round(Order { rotate: r, ..Order::default() }, 1, &[], Order::default());
    }
}

const SWEEP: usize = 11;

struct Judged {
    p: Played,
}

fn seen(rounds: &[Round]) -> u64 { rounds.iter().flat_map(|r| r.first.into_iter().chain(r.second)).fold(0, |m, i| m | 1 << i) }

fn judge(ctx: &mut Ctx, s: &Script) -> Judged {
    let p = play(About::Cards, &s.spec());
    count(ctx, &p);
    ctx.states += p.rounds.len() as u64;
    for r in &p.rounds {
        for (i, (a, b)) in r.first.iter().zip(r.second).enumerate() {
            if r.swaps.contains(&i) {
                ctx.outcome(1 << 40 | (*a as u64) << 16 | (b as u64) << 8 | i as u64);
            }
        }
    }
    ctx.sample(|| match p.rounds.last() {
        Some(r) => format!("{} rounds; last: {} swap {:?} {}", p.rounds.len(), hand_text(&r.first), r.swaps, hand_text(&r.second)),
        None => "no round".into(),
    });
    Judged { p }
}

/// Does a fresh game show all cards when it begins with a sweep? (It depends on
/// where it deals from.)
fn sweeps_work() -> bool {
    static W: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *W.get_or_init(|| {
        let mut s = Script::new();
        sweep(&mut s);
        let p = play(About::Cards, &s.spec());
        p.rounds.len() == SWEEP && seen(&p.rounds).count_ones() == 52
    })
}

/// A history, then a sweep.
fn swept(ctx: &mut Ctx, mut s: Script) -> Played {
    let n = s.orders.len();
    let shuffles_before = n;
    sweep(&mut s);
    let j = judge(ctx, &s);
    let p = j.p;
    if p.end != End::Lost && controlled() && sweeps_work() && p.outcome.shuffles.len() >= shuffles_before + SWEEP && p.rounds.len() >= SWEEP {
        let last = &p.rounds[p.rounds.len() - SWEEP..];
        let missing: Vec<usize> = (0..52).filter(|i| seen(last) & 1 << i == 0).collect();
        if !missing.is_empty() {
            let h: Vec<String> = p.rounds[..p.rounds.len() - SWEEP].iter().rev().take(4).rev().map(|r| format!("{} swap {:?} {}", hand_text(&r.first), r.swaps, hand_text(&r.second))).collect();
            fail(format!("after {} rounds, the last being {h:?}, the deck no longer holds {}", p.rounds.len() - SWEEP, hand_text(&missing)));
        }
    }
    p
}

/// The chosen positions are refilled from the deck: where the discards lie in
/// the middle of it, no position can keep its card.
fn refilled(p: &Played, spec_shuffles: usize) {
    if p.end == End::Lost || p.outcome.shuffles.len() != spec_shuffles {
        return;
    }
    let Some(d) = dealing() else { return };
    let mut at = d.skip;
    for r in &p.rounds {
        at += 1;
        if r.swaps.is_empty() {
            continue;
        }
        let Some(&(n, cards)) = p.outcome.shuffles.get(at) else { return };
        at += 1;
        if n != 47 + r.swaps.len() || r.swaps.iter().any(|&i| cards & 1 << r.first[i] == 0) {
            return;
        }
        for &i in &r.swaps {
            ensure!(
                r.first[i] != r.second[i],
                "{} swap {:?}: position {} still shows {} although other cards came first in the deck",
                hand_text(&r.first),
                r.swaps,
                i + 1,
                refm::text(r.first[i])
            );
        }
    }
}

/// Ways the deck can lie when cards are drawn from it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Draw {
    /// cards not in the hand first and last
    Others,
    OthersHigh,
    /// the discards come back, in order or reversed
    Discards,
    DiscardsReversed,
    /// the kept cards, should they be in the deck
    Kept,
    /// one discard, then others
    Mixed,
}

const DRAWS: [Draw; 6] = [Draw::Others, Draw::OthersHigh, Draw::Discards, Draw::DiscardsReversed, Draw::Kept, Draw::Mixed];

fn draw(d: Draw, hand: &[usize; 5], swaps: &[usize]) -> Order {
    let others: Vec<usize> = (0..52).filter(|i| !hand.contains(i)).collect();
    let out: Vec<usize> = swaps.iter().map(|&i| hand[i]).collect();
    match d {
        // front and back free of discards
        Draw::Others => {
            let mut f = others[..18].to_vec();
            f.extend(&out);
            f.extend(&others[18..]);
            Order::front(&f)
        }
        Draw::OthersHigh => {
            let mut f: Vec<usize> = others.iter().rev().copied().collect();
            for (k, x) in out.iter().enumerate() {
                f.insert(15 + k, *x);
            }
            Order::front(&f)
        }
        Draw::Discards => Order::front(&out),
        Draw::DiscardsReversed => Order::front(&out.into_iter().rev().collect::<Vec<_>>()),
        Draw::Kept => Order::front(hand),
        Draw::Mixed => {
            let mut f = vec![];
            if let Some(&x) = out.last() {
                f.push(others[7]);
                f.push(x);
            }
            f.extend(&others[30..34]);
            Order::front(&f)
        }
    }
}

fn hands(env: &Env) -> Vec<[usize; 5]> {
    let mut v: Vec<[usize; 5]> = vec![JUNK, ROYAL, [51, 0, 50, 1, 49], [3, 13, 23, 33, 43], [8, 9, 10, 11, 12]];
    if env.thorough() {
        for k in 0..120u64 {
            let mut all: Vec<usize> = (0..52).collect();
            scramble(&mut all, k + 77);
            v.push(all[..5].try_into().unwrap());
        }
    }
    v
}

pub fn c22<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let t = env.thorough();
    let lists = swap_lists();
    let mut v = vec![];
    let hs = hands(env);

    let (l, h) = (lists.clone(), hs.clone());
    v.push(family(
        "every-swap",
        format!("{} hands x 326 ordered choices of positions x 6 ways the deck lies, one round followed by a sweep", hs.len()),
        hs.len() * 6 * 33,
        move |c, ctx| {
            let (hand, d, part) = (h[c / 198], DRAWS[c / 33 % 6], c % 33);
            for sw in l.iter().skip(part * 10).take(10) {
                let mut s = Script::new();
                s.round(Order::front(&hand), 1, sw, draw(d, &hand, sw));
                ctx.note(c as u64);
                let n = s.orders.len();
                let p = swept(ctx, s);
                if matches!(d, Draw::Others | Draw::OthersHigh) {
                    // (a final shuffle follows the last round)
                    refilled(&p, n + SWEEP + 1);
                }
            }
        },
    ));

    let seq = all_sequences(326, 2);
    let ps = pieces(&seq, 200, 2);
    let (l, h) = (lists.clone(), hs.clone());
    let ways = if t { 36 } else { 6 };
    v.push(family("two-swaps", format!("all pairs of ordered choices of positions in successive rounds (326 x 326) x {ways} ways the deck lies in both, in histories of 200 rounds, each followed by a sweep"), ps.len() * ways, move |c, ctx| {
        let (c, way) = (c / ways, c % ways);
        let mut s = Script::new();
        fund(&mut s, 300);
        let mut n = s.orders.len();
        for (k, &x) in ps[c].iter().enumerate() {
            let hand = h[(k + c) % h.len()];
            let d = DRAWS[(if k % 2 == 0 { way % 6 } else { way / 6 + k / 2 }) % 6];
            s.round(Order::front(&hand), 1, &l[x], draw(d, &hand, &l[x]));
            n += 1;
        }
        ctx.note(c as u64);
        let p = swept(ctx, s);
        ensure!(p.end == End::Lost || p.rounds.len() == n + SWEEP || !controlled(), "{} rounds scripted, {} played", n + SWEEP, p.rounds.len());
    }));

    // histories over the 32 sets of positions
    let sets: Vec<Vec<usize>> = (0..32usize).map(|m| (0..5).filter(|i| m & 1 << i != 0).collect()).collect();
    let n = if t { 5 } else { 4 };
    let seq = all_sequences(32, n);
    let ps = pieces(&seq, 600, n);
    let h = hs.clone();
    v.push(family("swap-histories", format!("all sequences of {n} of the 32 sets of positions, each history followed by a sweep"), ps.len(), move |c, ctx| {
        let mut s = Script::new();
        fund(&mut s, 700);
        for (k, &x) in ps[c].iter().enumerate() {
            let hand = h[(k + c) % h.len()];
            s.round(Order::front(&hand), 1, &sets[x], draw(DRAWS[(k + c) % 6], &hand, &sets[x]));
        }
        ctx.note(c as u64);
        swept(ctx, s);
    }));

    v.push(family("every-card-everywhere", "every card dealt to every position, and every pair of a discarded and a drawn card at every position", 52 * 5, |c, ctx| {
        let (x, at) = (c / 5, c % 5);
        let mut s = Script::new();
        fund(&mut s, 60);
        for y in (0..52).filter(|&y| y != x) {
            let mut hand: Vec<usize> = (0..52).map(|i| (i * 11 + x + 3) % 52).filter(|&i| i != x && i != y).take(4).collect();
            hand.insert(at, x);
            s.round(Order::front(&hand), 1, &[at], Order::front(&[y]));
        }
        ctx.note(c as u64);
        let n = s.orders.len();
        let p = swept(ctx, s);
        let _ = n;
        if p.end != End::Lost {
            ctx.states += 51;
        }
    }));

    // judged by what is shown alone, so whatever the program does about shuffling
    let l = lists.clone();
    v.push(family("swaps-take-effect", "each of the 325 ordered choices of positions in 60 rounds in a row, decks of all sorts: no position keeps its card in all of them", 325, move |c, ctx| {
        let sw = &l[c + 1];
        let mut s = Script::new();
        let order = |k: u64| {
            let mut all: Vec<usize> = (0..52).collect();
            scramble(&mut all, k);
            Order::front(&all)
        };
        for k in 0..60 {
            let k = (c * 60 + k) as u64 * 2;
            s.round(order(k), 1, sw, order(k + 1));
        }
        ctx.note(c as u64);
        let p = judge(ctx, &s).p;
        let rounds: Vec<&Round> = p.rounds.iter().filter(|r| r.swaps == *sw).collect();
        if p.end == End::Lost || rounds.len() < 20 {
            return;
        }
        for &i in sw {
            ensure!(rounds.iter().any(|r| r.first[i] != r.second[i]), "position {} was swapped in {} rounds in a row (swap {:?}), and showed the same card before and after in all of them", i + 1, rounds.len(), swap_text(sw));
        }
    }));

    // class values: from each to each
    let st = env.strengths();
    let mut reps: Vec<[usize; 5]> = vec![];
    let mut last = None;
    for (i, &s) in st.list.iter().enumerate() {
        if last != Some(class_key(s)) {
            last = Some(class_key(s));
            reps.push(st.rep[i]);
        }
    }
    let k = reps.len();
    v.push(family("better-or-worse", format!("from every class value to every other by swapping all five ({k} x {k})"), k, move |c, ctx| {
        for part in reps.chunks(100) {
            let mut s = Script::new();
            fund(&mut s, 100);
            for b in part {
                s.round(Order::front(&reps[c]), 1, &[0, 1, 2, 3, 4], Order::front(b));
            }
            ctx.note(c as u64);
            judge(ctx, &s);
        }
    }));

    let near = if t { 7461 } else { 40 };
    v.push(family("kickers", format!("from every strength to itself and the {near} next better ones, both ways"), 7462usize.div_ceil(60), move |c, ctx| {
        for at in (c * 60..c * 60 + 60).take_while(|&i| i < st.len()) {
            let mut s = Script::new();
            fund(&mut s, near * 2 + 10);
            for d in 0..=near {
                if at + d < st.len() {
                    let (a, b) = (st.rep[at], st.rep[at + d]);
                    s.round(Order::front(&a), 1, &[0, 1, 2, 3, 4], Order::front(&b));
                    s.round(Order::front(&b), 1, &[4, 3, 2, 1, 0], Order::front(&a));
                }
            }
            ctx.note(at as u64);
            judge(ctx, &s);
        }
    }));

    if t {
        let heads = pairs_for(5);
        v.push(family("every-hand-every-set", "all 2,598,960 hands x 32 sets of positions, drawn from both ends of the rest", heads.len(), move |c, ctx| {
            let mut s = Script::new();
            let mut n = 0;
            subsets_in_chunk(5, heads[c], &mut |ids| {
                for m in 0..32usize {
                    if n % 3200 == 0 {
                        fund(&mut s, 3200);
                    }
                    n += 1;
                    let sw: Vec<usize> = (0..5).filter(|i| m & 1 << i != 0).collect();
                    s.round(Order::front(ids), 1, &sw, Order { rotate: (n % 52) as u8, ..Order::default() });
                    if n % 3200 == 0 {
                        judge(ctx, &s);
                        s = Script::new();
                    }
                }
            });
            judge(ctx, &s);
        }));
    }

    let m = if t { 15_000 } else { 4_000 };
    let l = lists.clone();
    v.push(family("long-histories", format!("8 histories of {m} rounds that run through all choices of positions, drawn from everywhere in the deck"), 8, move |c, ctx| {
        let mut s = Script::new();
        fund(&mut s, m);
        for i in 0..m {
            let (h, _) = ENDS[(i * 7 + c) % 15];
            let deal = if i % 3 == 0 { Order::front(&h) } else { Order { rotate: (i * 13 % 47) as u8, descending: c % 2 == 1, ..Order::default() } };
            s.round(deal, 1, &l[(i * (c * 2 + 1) + c) % 326], Order { rotate: (i * 29 % 51) as u8, descending: i % 2 == 1, ..Order::default() });
        }
        let p = swept(ctx, s);
        let _ = p.rounds.first().map(|r| mask(&r.first));
    }));
    v
}
