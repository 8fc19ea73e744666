//! C13: shuffling, explored through a scripted generator.

use std::collections::{HashMap, HashSet};

use poker::{deck, Card};
use rand::{rngs::StdRng, Error, RngCore, SeedableRng};

use crate::{
    entropy,
    engine::{fail, family, Ctx, Family},
    ensure,
    env::*,
    refm,
};

/// Draws after which every stream becomes hash-like.
const SETTLE: usize = 2048;

/// What the generator answers at draw number `i`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    /// always this value
    Const(u32),
    /// a fixed, hash-like stream with this key
    Hash(u64),
    /// these two values in turn
    Alt(u32, u32),
}

#[derive(Clone, Debug)]
struct Script {
    base: Base,
    /// draw number -> value
    dev: [(usize, u32); 3],
    devs: usize,
    drawn: usize,
}

impl Script {
    fn new(base: Base, dev: &[(usize, u32)]) -> Script {
        let mut d = [(usize::MAX, 0); 3];
        d[..dev.len()].copy_from_slice(dev);
        Script { base, dev: d, devs: dev.len(), drawn: 0 }
    }

    #[inline]
    fn draw(&mut self) -> u32 {
        let i = self.drawn;
        self.drawn += 1;
        if i > 100_000 {
            crate::engine::engine_error(format!("{:?} keeps the shuffle drawing for ever", self.base));
        }
        for d in &self.dev[..self.devs] {
            if d.0 == i {
                return d.1;
            }
        }
        // A range reduction may refuse a value and draw again; a stream that keeps
        // giving the refused value would be drawn from for ever, so every stream
        // turns into a hash-like one after this many draws.
        let base = if i < SETTLE { self.base } else { Base::Hash(0x5E77_1E00) };
        match base {
            Base::Const(v) => v,
            Base::Hash(k) => (splitmix(k.wrapping_mul(0x1_0001).wrapping_add(i as u64 * 0x9E37_79B9)) >> 16) as u32,
            Base::Alt(a, b) => if i % 2 == 0 { a } else { b },
        }
    }
}

impl RngCore for Script {
    fn next_u32(&mut self) -> u32 { self.draw() }
    fn next_u64(&mut self) -> u64 {
        let v = self.draw() as u64;
        v << 32 | v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.draw().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

type Deck = [u8; 52];

struct Ids([u8; 64]);

impl Ids {
    /// A perfect table from integers to ids, so that reading a deck is cheap.
    fn slot(c: Card) -> usize { (c.rank() as usize) * 4 + (c.suit() as usize) }
    fn new() -> Ids {
        let mut t = [255u8; 64];
        for i in 0..52 {
            t[Self::slot(refm::card(i))] = i as u8;
        }
        Ids(t)
    }
}

/// A shuffled deck as card ids, judged to be a rearrangement of the 52 cards.
fn read(ids: &Ids, v: &[Card], how: &dyn Fn() -> String) -> Deck {
    let mut d = [255u8; 52];
    let mut seen = 0u64;
    for (i, &c) in v.iter().enumerate().take(52) {
        let x = ids.0[Ids::slot(c)];
        d[i] = x;
        seen |= 1 << x;
    }
    if v.len() != 52 || seen != (1 << 52) - 1 {
        fail(format!("a shuffled deck has {} cards, {} different ({})", v.len(), v.iter().collect::<HashSet<_>>().len(), how()));
    }
    d
}

fn shuffle(ids: &Ids, ctx: &mut Ctx, s: &Script) -> (Deck, usize) {
    let mut g = s.clone();
    let v = deck::shuffled_with(&mut g);
    ctx.traces += 1;
    ctx.transitions += 52;
    (read(ids, &v, &|| format!("{s:?}")), g.drawn)
}

/// How many values of draw `p` lead to each of its `n` outcomes: exactly, if
/// every outcome is chosen by one interval of values or if only the low sixteen
/// bits matter; None otherwise.
fn exact_counts(ids: &Ids, ctx: &mut Ctx, base: Base, draws: usize, p: usize, n: usize) -> Option<Vec<u64>> {
    let mut at = |v: u32| {
        let (d, drawn) = shuffle(ids, ctx, &Script::new(base, &[(p, v)]));
        (drawn == draws).then(|| key(&d))
    };
    let mut runs: Vec<(u128, u32, u32)> = vec![]; // outcome, first and last value seen
    let mut interval = true;
    for k in 0..1u32 << 12 {
        let v = k << 20 | 0x8_0000;
        let Some(o) = at(v) else { continue };
        if runs.last().is_some_and(|r| r.0 == o) {
            runs.last_mut().unwrap().2 = v;
        } else if runs.iter().any(|r| r.0 == o) {
            interval = false;
            break;
        } else {
            runs.push((o, v, v));
        }
    }
    if interval && runs.len() == n {
        let mut counts = vec![];
        for i in 0..n {
            let (o, first, last) = runs[i];
            // the first value of the run, after the last one of the run before
            let (mut lo, mut hi) = (if i == 0 { 0 } else { runs[i - 1].2 as u64 + 1 }, first as u64);
            while lo < hi {
                let m = (lo + hi) / 2;
                if at(m as u32) == Some(o) { hi = m } else { lo = m + 1 }
            }
            let begin = lo;
            let (mut lo, mut hi) = (last as u64, if i + 1 == n { u32::MAX as u64 } else { runs[i + 1].1 as u64 - 1 });
            while lo < hi {
                let m = (lo + hi + 1) / 2;
                if at(m as u32) == Some(o) { lo = m } else { hi = m - 1 }
            }
            counts.push(lo - begin + 1);
        }
        return Some(counts);
    }
    for v in (0..256u32).map(|k| k * 257) {
        let o = at(v);
        if [1u32 << 16, 3 << 16, 1 << 24, 1 << 31, 0xFFFF << 16, 0x1234 << 16].iter().any(|h| at(h | v) != o) {
            return None;
        }
    }
    let mut counts: HashMap<u128, u64> = HashMap::new();
    for v in 0..1u32 << 16 {
        if let Some(o) = at(v) {
            *counts.entry(o).or_default() += 1;
        }
    }
    (counts.len() == n).then(|| counts.into_values().map(|c| c << 16).collect())
}

fn bases(n: usize) -> Vec<Base> {
    let mut v = vec![Base::Const(0), Base::Const(0x8000_0000), Base::Alt(0, u32::MAX), Base::Alt(u32::MAX, 0), Base::Alt(1, 0x7fff_ffff)];
    for k in 0..n {
        v.push(Base::Hash(k as u64));
    }
    v
}

fn key(d: &Deck) -> u128 {
    let (mut a, mut b) = (0x243F_6A88_85A3_08D3u64, 0x1319_8A2E_0370_7344u64);
    for c in d.chunks(4) {
        let x = c.iter().fold(0u64, |x, &y| x << 8 | y as u64);
        a = splitmix(a ^ x);
        b = splitmix(b.rotate_left(17) ^ x ^ a);
    }
    (a as u128) << 64 | b as u128
}

/// Lattice point k of 2^bits: high and low halves both run through all values.
fn lattice(k: u32, bits: u32) -> u32 {
    let hi = k << (32 - bits);
    hi | k
}

pub fn c13(env: &Env) -> Vec<Family<'_>> {
    let menu1: u32 = if env.thorough() { 1024 } else { 256 };
    let nb = if env.thorough() { 40 } else { 12 };
    let bs = bases(nb);
    let nbases = bs.len();
    let draws_max = 60usize;
    let mut v = vec![];
    {
        let bs = bs.clone();
        v.push(family(
            "rearrangement",
            format!("{nbases} base streams x every single deviation (draw 0..{draws_max}, {menu1} values): exactly the 52 cards, and the same deck when repeated through &mut, dyn and after other shuffles"),
            nbases * draws_max,
            move |c, ctx| {
                let ids = Ids::new();
                let (b, p) = (bs[c / draws_max], c % draws_max);
                for k in 0..menu1 {
                    let s = Script::new(b, &[(p, lattice(k, menu1.ilog2()))]);
                    ctx.note((c as u64) << 32 | k as u64);
                    let (d, n) = shuffle(&ids, ctx, &s);
                    ctx.states += 1;
                    if k % 16 == 3 {
                        // something else in between, then the same stream again
                        let _ = deck::shuffled();
                        let _ = shuffle(&ids, ctx, &Script::new(Base::Hash(k as u64), &[]));
                        let (e, m) = shuffle(&ids, ctx, &s);
                        ensure!(d == e && n == m, "the same generator output gives two different decks: {s:?}");
                        let mut g: Box<dyn RngCore> = Box::new(s.clone());
                        let e = read(&ids, &deck::shuffled_with(&mut *g), &|| format!("dyn {s:?}"));
                        ensure!(d == e, "the same generator output gives another deck through a trait object: {s:?}");
                        let mut g = s.clone();
                        let mut r = &mut g;
                        let e = read(&ids, &deck::shuffled_with(&mut r), &|| format!("&mut {s:?}"));
                        ensure!(d == e, "the same generator output gives another deck through a reference: {s:?}");
                        let st = s.clone();
                        if k == 3 {
                            let e = std::thread::spawn(move || {
                                let mut g = st;
                                let _ = deck::shuffled();
                                deck::shuffled_with(&mut g)
                            })
                            .join()
                            .unwrap_or_else(|_| fail(format!("shuffling on another thread panicked: {s:?}")));
                            let e = read(&ids, &e, &|| "on another thread".into());
                            ensure!(d == e, "the same generator output gives another deck on another thread: {s:?}");
                        }
                        ctx.transitions += 4;
                    }
                }
                ctx.outcome(c as u64);
                ctx.sample(|| format!("{b:?}, draw {p} deviates"));
            },
        ));
    }
    v.push(family("continuing-streams", "400 generators used for several decks in a row: each deck depends only on the generator's position", 400, |c, ctx| {
        let ids = Ids::new();
        // seeded generators: equal seeds give equal sequences of decks
        let mut a = StdRng::seed_from_u64(c as u64);
        let mut b = StdRng::seed_from_u64(c as u64);
        let mut all = vec![];
        for i in 0..6 {
            let x = read(&ids, &deck::shuffled_with(&mut a), &|| format!("seed {c} deck {i}"));
            if i % 2 == 1 {
                let _ = deck::shuffled();
                let _ = deck::generate().take(i).count();
            }
            let y = read(&ids, &deck::shuffled_with(&mut b), &|| format!("seed {c} deck {i}"));
            ensure!(x == y, "two generators with seed {c} give different decks at deck {i}");
            all.push(x);
            ctx.traces += 2;
            ctx.transitions += 1;
        }
        for i in 0..6 {
            for j in 0..i {
                ensure!(all[i] != all[j], "seed {c}: decks {j} and {i} are the same although the generator went on");
            }
        }
        // a generator at a given position gives the same deck whatever came before
        let mut g = StdRng::seed_from_u64(c as u64);
        for i in 0..6 {
            let mut copy = g.clone();
            let y = read(&ids, &deck::shuffled_with(&mut copy), &|| "copy".into());
            ensure!(y == all[i], "seed {c}: a copy of the generator gives another deck {i}");
            let _ = deck::shuffled_with(&mut g);
            ctx.traces += 2;
            ctx.transitions += 1;
        }
        ctx.states += 6;
    }));
    // choice structure: every draw, every value of a fine lattice
    let bits = 16;
    v.push(family(
        "every-draw-is-even",
        format!("every draw x 2^{bits} values covering all high and all low halves: outcomes of the draw are equally frequent; the numbers of outcomes multiply to 52!"),
        1,
        move |_, ctx| {
            let base = Base::Const(0);
            let ids = Ids::new();
            let s0 = Script::new(base, &[]);
            let (d0, n0) = shuffle(&ids, ctx, &s0);
            if n0 > draws_max {
                return; // another kind of algorithm: judged by the other families
            }
            let mut per_draw: Vec<Vec<(u128, u32, u32)>> = vec![];
            let mut local = true;
            let results: Vec<(Vec<(u128, u32, u32)>, bool, u64)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..n0)
                    .map(|p| {
                        let (ids, d0) = (&ids, &d0);
                        sc.spawn(move || {
                            let mut count: HashMap<u128, (u32, u32)> = HashMap::new();
                            let mut local = true;
                            let mut n = 0u64;
                            for k in 0..1u32 << bits {
                                let v = lattice(k, bits);
                                let s = Script::new(base, &[(p, v)]);
                                let mut g = s.clone();
                                let deck = deck::shuffled_with(&mut g);
                                n += 1;
                                if g.drawn != n0 {
                                    continue; // refused by the generator's range reduction and drawn again
                                }
                                let d = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read(ids, &deck, &|| format!("{s:?}")))) {
                                    Ok(d) => d,
                                    Err(e) => std::panic::resume_unwind(e),
                                };
                                if d.iter().zip(d0).filter(|(a, b)| a != b).count() > 3 {
                                    local = false;
                                }
                                let e = count.entry(key(&d)).or_insert((0, v));
                                e.0 += 1;
                            }
                            let mut c: Vec<_> = count.into_iter().map(|(k, (n, v))| (k, n, v)).collect();
                            c.sort_by_key(|x| x.2);
                            (c, local, n)
                        })
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(e) => std::panic::resume_unwind(e),
                    })
                    .collect()
            });
            ctx.beat();
            for (c, l, n) in results {
                ctx.traces += n;
                ctx.states += c.len() as u64;
                local &= l;
                per_draw.push(c);
            }
            if !local {
                return; // not a swap-based shuffle: judged by the other families
            }
            // a draw with one outcome decides nothing
            let sizes: Vec<usize> = per_draw.iter().map(|c| c.len()).collect();
            ctx.sample(|| format!("outcomes per draw: {sizes:?}"));
            for (p, c) in per_draw.iter().enumerate() {
                let (lo, hi) = (c.iter().map(|x| x.1).min().unwrap_or(0), c.iter().map(|x| x.1).max().unwrap_or(0));
                ensure!(
                    hi - lo <= 8 + hi / 50,
                    "draw {p} of the shuffle is biased: of its {} outcomes one is chosen by {hi} and another by only {lo} of {} generator values",
                    c.len(),
                    c.iter().map(|x| x.1).sum::<u32>()
                );
                ctx.transitions += c.len() as u64;
            }
            // the same counted over all 2^32 values, where the form of the range
            // reduction allows it
            for p in 0..n0 {
                if let Some(c) = exact_counts(&ids, ctx, base, n0, p, per_draw[p].len()) {
                    let (lo, hi) = (c.iter().min().copied().unwrap_or(0), c.iter().max().copied().unwrap_or(0));
                    ensure!(
                        hi - lo <= 2 + hi / 1_000_000,
                        "draw {p} of the shuffle is biased: of its {} outcomes one is chosen by {hi} and another by only {lo} of the generator's values",
                        c.len()
                    );
                    ctx.states += c.len() as u64;
                }
                ctx.beat();
            }
            let mut got: Vec<usize> = sizes.iter().copied().filter(|&n| n > 1).collect();
            got.sort();
            // prime exponents of the product, compared with those of 52!
            let exps = |v: &mut dyn Iterator<Item = usize>| {
                let mut e = [0i64; 53];
                for mut n in v {
                    for p in 2..=52 {
                        while n % p == 0 {
                            e[p] += 1;
                            n /= p;
                        }
                    }
                    if n > 1 {
                        e[0] += 1;
                    }
                }
                e
            };
            ensure!(
                exps(&mut got.iter().copied()) == exps(&mut (2..=52usize)),
                "the numbers of outcomes of the draws ({sizes:?}) do not multiply to 52!: the decks cannot be equally likely"
            );
            // different choices give different decks: all pairs of deviations
            let mut seen: HashMap<u128, [(usize, u32); 2]> = HashMap::new();
            for p in 0..n0 {
                for &(_, _, vp) in &per_draw[p] {
                    if key(&d0) == key(&shuffle(&ids, ctx, &Script::new(base, &[(p, vp)])).0) {
                        continue;
                    }
                    for q in p + 1..n0 {
                        for &(kq, _, vq) in &per_draw[q] {
                            if kq == key(&d0) {
                                continue;
                            }
                            let (d, _) = shuffle(&ids, ctx, &Script::new(base, &[(p, vp), (q, vq)]));
                            let old = seen.insert(key(&d), [(p, vp), (q, vq)]);
                            ensure!(
                                old.is_none(),
                                "two different sequences of choices give the same deck: deviations {:?} and {:?} from the all-zero generator",
                                old,
                                [(p, vp), (q, vq)]
                            );
                            ctx.states += 1;
                        }
                    }
                }
                ctx.beat();
            }
        },
    ));
    // reachability of every (card, position) and of every pair of them
    v.push(family(
        "every-card-everywhere",
        "witness streams: every (card, position) and every ordered pair of cards in every ordered pair of positions is reached by some stream; search space = all streams with two deviations from two bases (64 values), then fixed hash streams",
        1,
        move |_, ctx| {
            let total = 52 * 51 * 52 * 51 / 2;
            let mut hit = vec![0u64; (52usize * 52 * 52 * 52) / 64 + 1];
            let mut left = 52 * 51 * 52 * 51 / 2usize;
            let ids = Ids::new();
            let mut one = [[false; 52]; 52];
            let mut add = |d: &Deck, left: &mut usize| {
                for p in 0..52 {
                    one[d[p] as usize][p] = true;
                    for q in p + 1..52 {
                        let i = ((d[p] as usize * 52 + d[q] as usize) * 52 + p) * 52 + q;
                        let (w, b) = (i / 64, 1u64 << (i % 64));
                        if hit[w] & b == 0 {
                            hit[w] |= b;
                            *left -= 1;
                        }
                    }
                }
            };
            'all: for round in 0..2 {
                let mut k = 0u64;
                let cap = 600_000;
                while k < cap {
                    let s = if round == 0 {
                        let menu = 53u64;
                        let (p, q, a, b) = (k % 51, k / 51 % 51, k / 2601 % menu, k / 2601 / menu);
                        if b >= 4 {
                            break;
                        }
                        let b = (a * 7 + b * 13 + p) % menu;
                        Script::new(Base::Const(0), &[(p as usize, (a * 81_037_118) as u32), (q as usize, (b * 81_037_118) as u32)])
                    } else {
                        Script::new(Base::Hash(0xABCD_0000 + k), &[])
                    };
                    ctx.note(k);
                    let (d, _) = shuffle(&ids, ctx, &s);
                    add(&d, &mut left);
                    k += 1;
                    ctx.states += 1;
                    if left == 0 {
                        break 'all;
                    }
                }
            }
            for c in 0..52 {
                for p in 0..52 {
                    ensure!(one[c][p], "no generator stream puts {} at position {p}", refm::text(c));
                }
            }
            if left > 0 {
                let i = (0..52usize.pow(4))
                    .find(|i| {
                        let (q, p, b, a) = (i % 52, i / 52 % 52, i / 2704 % 52, i / 2704 / 52);
                        a != b && p < q && hit[i / 64] >> (i % 64) & 1 == 0
                    })
                    .unwrap_or(0);
                let (q, p, b, a) = (i % 52, i / 52 % 52, i / 2704 % 52, i / 2704 / 52);
                fail(format!("no generator stream puts {} at position {p} and {} at position {q} ({left} of {total} such pairs are out of reach)", refm::text(a), refm::text(b)));
            }
            ctx.transitions += total as u64;
            ctx.sample(|| format!("{total} placements of two cards, all reached"));
        },
    ));
    // evenness over a large fixed set of streams
    let log = if env.thorough() { 27 } else { 25 };
    let n: u64 = 1 << log;
    let chunks = 256usize;
    let tot: Vec<std::sync::atomic::AtomicU64> = (0..3 * 52 * 52).map(|_| Default::default()).collect();
    // against the order of a fresh deck: cards in their place, cards followed by
    // their successor, cards followed by a later card; mean and variance per deck
    let marks: [(&str, f64, f64); 3] = [
        ("cards in the place they have in a fresh deck", 1.0, 1.0),
        ("cards followed by the one that follows them in a fresh deck", 51.0 / 52.0, 1.0),
        ("cards followed by one that comes later in a fresh deck", 25.5, 53.0 / 12.0),
    ];
    let mark: [std::sync::atomic::AtomicU64; 3] = Default::default();
    let done = std::sync::atomic::AtomicUsize::new(0);
    v.push(family(
        "even-over-fixed-streams",
        format!("all 2^{log} streams of one fixed family: every card occurs at every position, and right after every other card, equally often within 0.9%, and of an eighth of them every pair of cards in either order within 0.33%; cards in their old place, next to their old neighbour, before a later card as often as in all rearrangements, within 7 standard deviations"),
        chunks,
        move |c, ctx| {
            use std::sync::atomic::Ordering::SeqCst;
            let ids = Ids::new();
            const N: usize = 52 * 52;
            let mut count = vec![0u32; 3 * N];
            let per = n / chunks as u64;
            let mut place = [0i32; 52];
            for (i, card) in deck::generate().enumerate().take(52) {
                place[ids.0[Ids::slot(card)] as usize % 52] = i as i32;
            }
            let mut marked = [0u64; 3];
            for k in 0..per {
                let s = Script::new(Base::Hash((c as u64 * per + k) | 1 << 40), &[]);
                if k % 1024 == 0 {
                    ctx.note(c as u64 * per + k);
                }
                let (d, _) = shuffle(&ids, ctx, &s);
                for p in 0..52 {
                    count[d[p] as usize * 52 + p] += 1;
                }
                let q = d.map(|c| place[c as usize]);
                for p in 0..52 {
                    marked[0] += (q[p] == p as i32) as u64;
                }
                for w in q.windows(2) {
                    marked[1] += (w[1] == w[0] + 1) as u64;
                    marked[2] += (w[1] > w[0]) as u64;
                }
                for w in d.windows(2) {
                    count[N + w[0] as usize * 52 + w[1] as usize] += 1;
                }
                if k % 8 == 0 {
                    for p in 0..52 {
                        for q in p + 1..52 {
                            count[2 * N + d[p] as usize * 52 + d[q] as usize] += 1;
                        }
                    }
                }
            }
            ctx.states += per;
            for (t, &x) in tot.iter().zip(&count) {
                t.fetch_add(x as u64, SeqCst);
            }
            for (t, &x) in mark.iter().zip(&marked) {
                t.fetch_add(x, SeqCst);
            }
            if done.fetch_add(1, SeqCst) + 1 == chunks {
                for (t, (what, mean, var)) in mark.iter().zip(marks) {
                    let (x, want) = (t.load(SeqCst) as f64, mean * n as f64);
                    ctx.sample(|| format!("{what}: {x}, expected {want:.0}"));
                    ensure!((x - want).abs() < 7.0 * (var * n as f64).sqrt(), "over {n} generator streams there are {x} {what}, expected {want:.0}");
                }
                let mean = n as f64 / 52.0;
                let at = |i: usize| tot[i].load(SeqCst) as f64;
                for i in 0..N {
                    let (a, b) = (refm::text(i / 52), refm::text(i % 52));
                    ensure!((at(i) / mean - 1.0).abs() < 0.009, "over {n} generator streams {a} comes to position {} {} times, expected {mean:.0}", i % 52, at(i));
                    if i / 52 != i % 52 {
                        ensure!((at(N + i) / mean - 1.0).abs() < 0.009, "over {n} generator streams {b} comes right after {a} {} times, expected {mean:.0}", at(N + i));
                        let half = n as f64 / 16.0;
                        ensure!((at(2 * N + i) / half - 1.0).abs() < 0.0033, "over {} generator streams {a} comes before {b} {} times, expected {half:.0}", n / 8, at(2 * N + i));
                    }
                }
            }
        },
    ));
    v.push(family("default-generator", "shuffled(), in fresh threads whose operating-system randomness is the k-th of a fixed family of 640 streams, 500 decks each: 52 different cards, never twice the same deck, every card at every position", 8, |c, ctx| {
        let ids = Ids::new();
        let mut seen = HashSet::new();
        let mut at = [[0u32; 52]; 52];
        for t in 0..80u64 {
            let k = c as u64 * 80 + t + 1;
            ctx.note(k);
            let decks = std::thread::spawn(move || {
                entropy::set(k);
                (0..500).map(|_| deck::shuffled()).collect::<Vec<_>>()
            });
            let decks = decks.join().unwrap_or_else(|_| fail(format!("shuffled() panics (randomness {k})")));
            for deck in decks {
                let d = read(&ids, &deck, &|| format!("shuffled() with randomness {k}"));
                ensure!(seen.insert(d), "shuffled() gave the same deck twice");
                for p in 0..52 {
                    at[d[p] as usize][p] += 1;
                }
                ctx.traces += 1;
                ctx.transitions += 52;
            }
            ctx.states += 1;
        }
        for c in 0..52 {
            for p in 0..52 {
                // 769 on average
                ensure!((500..1100).contains(&at[c][p]), "shuffled() put {} at position {p} {} times in 40,000", refm::text(c), at[c][p]);
            }
        }
    }));
    v.push(crate::p_calls::c13_calls());
    v
}
