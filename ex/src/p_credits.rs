//! C21: credits and payouts.

use mc::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::{pairs_for, subsets_in_chunk, Env},
    refm::{self, hand_text},
};

use crate::{
    game::*,
    session::{Order, Spec},
};

/// A hand for every way a round can end: losing, every paying pair, every other
/// paying class.
pub const ENDS: [([usize; 5], &str); 15] = [
    (JUNK, "nothing"),
    ([0, 1, 10, 15, 20], "pair of twos"),
    ([32, 33, 10, 15, 20], "pair of tens"),
    ([36, 37, 10, 15, 20], "pair of jacks"),
    ([40, 41, 10, 15, 20], "pair of queens"),
    ([44, 45, 10, 15, 20], "pair of kings"),
    ([48, 49, 10, 15, 20], "pair of aces"),
    ([0, 1, 4, 5, 20], "two pair"),
    ([0, 1, 2, 4, 20], "three of a kind"),
    ([0, 5, 10, 15, 16], "straight"),
    ([0, 4, 8, 12, 20], "flush"),
    ([0, 1, 2, 4, 5], "full house"),
    ([0, 1, 2, 3, 4], "four of a kind"),
    ([0, 4, 8, 12, 16], "straight flush"),
    (ROYAL, "royal flush"),
];

pub fn count(ctx: &mut Ctx, p: &Played) {
    ctx.traces += 1;
    ctx.transitions += p.events as u64;
    ctx.beat();
    for r in &p.rounds {
        let s = refm::strength(mc::env::mask(&r.second));
        ctx.outcome(s as u64 * 8 + r.wager);
    }
}

pub fn judge(ctx: &mut Ctx, s: &Spec) -> Played {
    let p = play(About::Credits, s);
    count(ctx, &p);
    ctx.states += p.rounds.len() as u64;
    ctx.sample(|| match p.rounds.last() {
        Some(r) => format!(
            "{} rounds; last: {} credits, wager {}, {} swap {:?} {}, {} credits",
            p.rounds.len(),
            r.before,
            r.wager,
            hand_text(&r.first),
            r.swaps,
            hand_text(&r.second),
            r.after
        ),
        None => "no round".into(),
    });
    p
}

/// Enough credits for a few hundred lost rounds.
pub fn fund(s: &mut Script, rounds: usize) {
    for _ in 0..=(rounds * 5 / 4000) {
        s.stand(&ROYAL, 5);
    }
}

/// Rounds that lose until `b` credits are left.
pub fn lose_down_to(s: &mut Script, b: u64) {
    let mut c = 100;
    while c > b {
        let w = (c - b).min(5);
        s.stand(&JUNK, w);
        c -= w;
    }
}

fn all_played(p: &Played, n: usize) {
    ensure!(p.end == End::Lost || p.rounds.len() == n || !controlled(), "{} rounds were scripted, {} were played", n, p.rounds.len());
}

pub fn c21<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let t = env.thorough();
    let st = env.strengths();
    let mut v = vec![];

    v.push(family("every-strength-dealt", "7,462 hand strengths x 5 wagers, standing pat", 7462usize.div_ceil(50), move |c, ctx| {
        let mut s = Script::new();
        let reps: Vec<_> = st.rep.iter().skip(c * 50).take(50).collect();
        fund(&mut s, 250);
        for h in &reps {
            for w in 1..=5 {
                s.stand(*h, w);
            }
        }
        ctx.note(c as u64);
        let p = judge(ctx, &s.spec());
        all_played(&p, s.orders.len());
    }));

    v.push(family("every-strength-drawn", "7,462 hand strengths x wagers 1..5, reached by swapping the last k cards, k = 1..5 (wager and k vary together: all pairs in thorough)", 7462usize.div_ceil(50), move |c, ctx| {
        let mut s = Script::new();
        fund(&mut s, if t { 1250 } else { 250 });
        let mut n = 0;
        for (i, h) in st.rep.iter().enumerate().skip(c * 50).take(50) {
            for k in 1..=5 {
                for w in 1..=5 {
                    if !t && (w + k + i) % 5 != 0 {
                        continue;
                    }
                    // other cards in the last k places
                    let other: Vec<usize> = (0..52).map(|x| (x * 7 + i) % 52).filter(|x| !h.contains(x)).take(k).collect();
                    let mut deal = h.to_vec();
                    deal.truncate(5 - k);
                    deal.extend(&other);
                    s.round(Order::front(&deal), w as u64, &(5 - k..5).collect::<Vec<_>>(), Order::front(&h[5 - k..]));
                    n += 1;
                }
            }
        }
        ctx.note(c as u64);
        let p = judge(ctx, &s.spec());
        ensure!(p.end == End::Lost || p.rounds.len() >= n || !controlled(), "{n} rounds were scripted, {} were played", p.rounds.len());
    }));

    // 15 ends x 5 wagers
    let n = if t { 4 } else { 3 };
    let symbols: Vec<usize> = (0..75).collect();
    let seq = all_sequences(symbols.len(), n);
    let ps = pieces(&seq, if t { 4000 } else { 400 }, n);
    v.push(family(
        "sequences-of-outcomes",
        format!("all sequences of {n} of 15 ways a round can end x 5 wagers"),
        ps.len(),
        move |c, ctx| {
            let mut s = Script::new();
            fund(&mut s, if t { 4010 } else { 410 });
            for &x in &ps[c] {
                s.stand(&ENDS[symbols[x] / 5].0, symbols[x] as u64 % 5 + 1);
            }
            ctx.note(c as u64);
            let p = judge(ctx, &s.spec());
            all_played(&p, s.orders.len());
        },
    ));

    v.push(family("every-balance", "every balance 0..100 reached by losing x wagers 1..5 asked for (also more than is left) x 15 ways the round ends, dealt and drawn", 100, |c, ctx| {
        let b = 100 - c as u64;
        for w in 1..=5u64 {
            for (k, (h, _)) in ENDS.iter().enumerate() {
                for drawn in [false, true] {
                    let mut s = Script::new();
                    lose_down_to(&mut s, b);
                    if w > b {
                        s.line(&w.to_string());
                        if drawn {
                            s.line("quit");
                        } else {
                            s.stand(h, b);
                        }
                    } else if drawn {
                        s.round(Order::front(&JUNK.map(|x| (x + 8) % 52)), w, &[0, 1, 2, 3, 4], Order::front(h));
                    } else {
                        s.stand(h, w);
                    }
                    // one more round, if there can be one
                    s.stand(&JUNK, 1);
                    ctx.note(b << 16 | w << 8 | k as u64);
                    let p = judge(ctx, &s.spec());
                    let last = p.rounds.last().map(|r| r.after);
                    if p.end == End::Broke && last != Some(0) {
                        fail(format!("the game was over with {last:?} credits"));
                    }
                }
            }
        }
    }));

    let n = if t { 19 } else { 13 };
    v.push(family("going-broke", format!("from {n} credits, every way to lose them all in wagers of 1..5"), 25, move |c, ctx| {
        fn go(left: u64, cur: &mut Vec<u64>, f: &mut impl FnMut(&[u64])) {
            if left == 0 {
                return f(cur);
            }
            for w in 1..=left.min(5) {
                cur.push(w);
                go(left - w, cur, f);
                cur.pop();
            }
        }
        let (a, b) = (c as u64 / 5 + 1, c as u64 % 5 + 1);
        let mut cur = vec![a, b];
        go(n - a - b, &mut cur, &mut |ws| {
            let mut s = Script::new();
            lose_down_to(&mut s, n);
            for &w in ws {
                s.stand(&JUNK, w);
            }
            // must not be read any more
            s.line("1");
            s.line("");
            let p = judge(ctx, &s.spec());
            ensure!(p.end != End::Left || !controlled(), "after losing {ws:?} of {n} credits the game is not over");
        });
    }));

    let m = if t { 60_000 } else { 9_000 };
    v.push(family("long-winning", format!("3 sessions of {m} rounds: royal flushes, all pairs of jacks, losses and wins in turn"), 3, move |c, ctx| {
        let mut s = Script::new();
        fund(&mut s, 100);
        for i in 0..m {
            match c {
                0 => s.stand(&ROYAL, 5),
                1 => s.stand(&ENDS[3].0, i as u64 % 5 + 1),
                _ => s.stand(&ENDS[[0, 12, 0, 0, 9][i % 5]].0, i as u64 % 5 + 1),
            }
        }
        let p = judge(ctx, &s.spec());
        all_played(&p, s.orders.len());
    }));

    // all hands
    let heads = pairs_for(5);
    let k = heads.len();
    v.push(family(
        "every-hand-dealt",
        if t { "all 2,598,960 five-card hands x 5 wagers" } else { "all 2,598,960 five-card hands, with a wager of 5 or 1 in turn" },
        k,
        move |c, ctx| {
            let mut s = Script::new();
            let mut n = 0;
            let flush = |ctx: &mut Ctx, s: &mut Script| {
                let p = judge(ctx, &s.spec());
                all_played(&p, s.orders.len());
                *s = Script::new();
            };
            subsets_in_chunk(5, heads[c], &mut |ids| {
                let all: &[u64] = if t { &[1, 2, 3, 4, 5] } else if n % 2 == 0 { &[5] } else { &[1] };
                for w in all {
                    if n % 3000 == 0 {
                        fund(&mut s, 3000);
                    }
                    n += 1;
                    s.stand(ids, *w);
                    if n % 3000 == 0 {
                        flush(ctx, &mut s);
                    }
                }
            });
            if !s.input.is_empty() {
                flush(ctx, &mut s);
            }
        },
    ));
    v
}
