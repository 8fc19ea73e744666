//! Calls that are cut short or made from within other calls: writers that
//! refuse, panic or format something themselves; containers, strings, sources
//! and generators that panic or use the crate while the crate is asking them.
//! Whatever happened, every later call (and the outer one) answers as if it
//! were alone.

use std::{
    cell::{Cell, RefCell},
    fmt::{self, Display, Write as _},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    rc::Rc,
};

use poker::{Card, Eval, EvalError, Evaluator, ParseCardError};

use crate::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::*,
    refm::{self, class_of, hand_text, model_parse, name_of, strength},
};

struct Boom;

/// The panic of the caller's own code: no message, no hook.
pub fn boom() -> ! { resume_unwind(Box::new(Boom)) }

/// `Err` if the caller's own code panicked; any other panic goes on.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| if !p.is::<Boom>() { resume_unwind(p) })
}

// ---------------------------------------------------------------- writers

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    Refuse,
    Panic,
    Nested,
}

struct W<'a> {
    text: String,
    room: usize,
    fault: Fault,
    nested: &'a dyn Fn(),
}

impl fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.fault == Fault::Nested {
            (self.nested)();
        } else if self.text.len() + s.len() > self.room {
            if self.fault == Fault::Panic {
                boom()
            }
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Same text; where a list of cards may come in any order, the same words.
fn reads(g: &str, w: &str) -> bool {
    fn words(s: &str) -> Vec<&str> {
        let mut v: Vec<&str> = s.split([' ', ',']).filter(|w| !w.is_empty()).collect();
        v.sort_unstable();
        v
    }
    g == w || w.contains("not unique") && words(g) == words(w)
}

/// Display of `a` into a writer that fails at every possible place, or that
/// displays `b` whenever it is written to; `a` and `b` must read right then and
/// after.
fn writer_faults<A: Display, B: Display>(ctx: &mut Ctx, (a, ta): (&A, &str), (b, tb): (&B, &str)) {
    let after = |what: &str| {
        let g = b.to_string();
        ensure!(reads(&g, tb), "{what} the text {ta:?}, the next text is {g:?}, should be {tb:?}");
        let g = a.to_string();
        ensure!(reads(&g, ta), "{what} the text {ta:?}, the same text again is {g:?}");
    };
    for fault in [Fault::Refuse, Fault::Panic] {
        for room in 0..ta.len() {
            let how = if fault == Fault::Panic { "panicked" } else { "refused" };
            let mut w = W { text: String::new(), room, fault, nested: &|| () };
            let r = guarded(|| write!(w, "{a}"));
            ensure!(r != Ok(Ok(())), "the writer {how} after {room} bytes of {ta:?} and the display reports success");
            ensure!(ta.contains("not unique") || ta.starts_with(&w.text), "into a writer with room for {room} bytes the text {ta:?} is {:?}", w.text);
            after(&format!("after a writer {how} {room} bytes into"));
            ctx.transitions += 3;
            ctx.traces += 1;
            ctx.states += 1;
        }
    }
    let calls = Cell::new(0);
    let mut w = W {
        text: String::new(),
        room: 0,
        fault: Fault::Nested,
        nested: &|| {
            calls.set(calls.get() + 1);
            let g = b.to_string();
            ensure!(reads(&g, tb), "while {ta:?} is being written, the text {tb:?} is {g:?}");
        },
    };
    let r = write!(w, "{a}");
    ensure!(r.is_ok() && reads(&w.text, ta), "with {tb:?} displayed in between, the text {ta:?} is {:?}", w.text);
    after("after nested display within");
    ctx.transitions += calls.get();
    ctx.traces += 1;
}

fn shown(i: usize) -> String { format!("[ {}{} ]", refm::RANK_CHARS[i / 4], refm::SUIT_SYMBOLS[i % 4]) }

pub fn c10_writers<'a>() -> Family<'a> {
    family("cut-short-and-nested-displays", "every ordered pair of cards (and rank, suit): the first into a writer that refuses or panics after k bytes (every k), or that displays the second while being written to; then both again", 52, |i, ctx| {
        let a = refm::card(i);
        for j in 0..52 {
            ctx.note(j as u64);
            let b = refm::card(j);
            writer_faults(ctx, (&a, &shown(i)), (&b, &shown(j)));
            let (r, s) = (b.rank(), b.suit());
            writer_faults(ctx, (&r, &refm::RANK_CHARS[j / 4].to_string()), (&a, &shown(i)));
            writer_faults(ctx, (&s, &refm::SUIT_SYMBOLS[j % 4].to_string()), (&a, &shown(i)));
            writer_faults(ctx, (&a, &shown(i)), (&s, &refm::SUIT_SYMBOLS[j % 4].to_string()));
            ensure!(a.rank_suit_string() == refm::text(i), "the two-character form of {} has become {:?}", refm::text(i), a.rank_suit_string());
        }
    })
}

const BAD: [&str; 14] = ["", "A", "1s", "A1", "10c", "\u{e9}s", "A\u{1F0A1}", "as", "AS", "  ", "\n", "K\u{2660}", "'{}'", "2c 3d"];

pub fn c14_writers<'a>(env: &'a Env) -> Family<'a> {
    let lists: [&[usize]; 6] = [&[0, 0], &[51, 3, 51], &[4, 9, 4, 9, 4, 20, 9], &[], &[1, 2, 3, 4], &[7, 7, 7, 8, 8, 9, 9, 50]];
    family("cut-short-and-nested-messages", "every ordered pair of 20 errors: the first message into a writer that refuses or panics after k bytes (every k), or that displays the second while being written to; then both again", 20, move |i, ctx| {
        let make = |k: usize| -> (Box<dyn Display>, String) {
            if k < 14 {
                let w = crate::p_text::want_message(BAD[k]).unwrap();
                match BAD[k].parse::<Card>() {
                    Err(e) => (Box::new(e), w),
                    Ok(c) => fail(format!("{:?} parses as {c:?}", BAD[k])),
                }
            } else {
                match env.evaluator().evaluate(env.cards(lists[k - 14])) {
                    Err(e) => {
                        // what the message must say is judged elsewhere
                        let t = e.to_string();
                        (Box::new(e), t)
                    }
                    Ok(_) => fail(format!("{} is accepted", hand_text(lists[k - 14]))),
                }
            }
        };
        for j in 0..20 {
            ctx.note(j as u64);
            let (a, ta) = make(i);
            let (b, tb) = make(j);
            writer_faults(ctx, (&a, &ta), (&b, &tb));
        }
    })
}

pub fn c15_writers<'a>(env: &'a Env) -> Family<'a> {
    // one strength per name
    let mut picks: Vec<usize> = vec![];
    let mut seen = std::collections::HashSet::new();
    for (i, s) in env.strengths().list.iter().enumerate() {
        if seen.insert(name_of(*s)) {
            picks.push(i);
        }
    }
    family("cut-short-and-nested-names", "for each different name: into a writer that refuses or panics after k bytes (every k), or that displays another name while being written to; results and classes", picks.len(), move |i, ctx| {
        let st = env.strengths();
        let (x, y) = (picks[i], picks[(i * 7 + 3) % picks.len()]);
        let (tx, ty) = (name_of(st.list[x]), name_of(st.list[y]));
        ctx.note(x as u64);
        let (a, b) = (env.reps()[x], env.reps()[y]);
        writer_faults(ctx, (&a, &tx), (&b, &ty));
        writer_faults(ctx, (&a.class(), &tx), (&b.class(), &ty));
        writer_faults(ctx, (&a.class(), &tx), (&b, &ty));
    })
}

// ---------------------------------------------------------------- containers

/// Hands of every kind: all nine categories, six, seven, nine and 15 cards,
/// and every kind of invalid list.
fn sized() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![
        vec![],
        vec![5],
        vec![48, 44, 40, 36],
        vec![9, 9],
        vec![48, 44, 40, 36, 36],
        vec![48, 44, 40, 36, 32],
        vec![0, 4, 8, 12, 48],
        vec![0, 5, 10, 15, 48],
        vec![0, 1, 2, 3, 7],
        vec![0, 1, 2, 4, 5],
        vec![1, 13, 25, 33, 49],
        vec![20, 21, 22, 5, 51],
        vec![20, 21, 13, 14, 51],
        vec![0, 4, 8, 12, 21],
        vec![0, 5, 10, 15, 20, 25],
        vec![48, 44, 40, 36, 32, 28],
        vec![3, 7, 11, 19, 23, 4, 50],
        vec![48, 49, 50, 51, 44, 45, 46],
        vec![0, 4, 9, 17, 26, 35, 43, 50, 7],
    ];
    v.push((0..15).map(|i| (i * 17 + 3) % 52).collect());
    v.push((0..53).map(|i| i % 52).collect());
    v
}

fn judge(env: &Env, ids: &[usize], got: Result<Eval, EvalError>, when: &dyn Fn() -> String) {
    let mut seen = 0u64;
    let mut dup = false;
    for &i in ids {
        dup |= seen >> i & 1 == 1;
        seen |= 1 << i;
    }
    let ok = match &got {
        Err(EvalError::CardsNotUnique(c)) => dup && *c == env.cards(ids),
        Err(EvalError::InvalidHandSize(n)) => !dup && *n == ids.len() && ids.len() < 5,
        Ok(e) => {
            !dup && ids.len() >= 5 && {
                let s = strength(mask(ids));
                e.class() == class_of(s) && *e == env.reps()[env.strengths().idx(s)]
            }
        }
    };
    ensure!(ok, "{}: evaluating {} cards ({}) gives {got:?}", when(), ids.len(), hand_text(ids));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hook {
    None,
    Panic,
    Evaluate,
    EvaluateAnother,
    Clone,
    New,
    Format,
    CutShort,
}

/// A container that does something when it is asked for its cards, and
/// something when it is dropped.
struct Nosy<'a> {
    env: &'a Env,
    e: &'a Evaluator,
    cards: Vec<Card>,
    inner: &'a [usize],
    ask: Hook,
    drop: Hook,
}

impl Nosy<'_> {
    fn run(&self, h: Hook, when: &str) {
        let inner = self.env.cards(self.inner);
        let say = || format!("{when} {} other cards", self.cards.len());
        match h {
            Hook::None => {}
            Hook::Panic => boom(),
            Hook::Evaluate => judge(self.env, self.inner, self.e.evaluate(inner), &say),
            Hook::EvaluateAnother => judge(self.env, self.inner, self.env.evaluator().evaluate(inner), &say),
            Hook::Clone => {
                let c = Evaluator::clone(self.e);
                ensure!(c == *self.e, "{}: a clone is not equal", say());
                judge(self.env, self.inner, c.evaluate(inner), &say)
            }
            Hook::New => judge(self.env, self.inner, Evaluator::new().evaluate(inner), &say),
            Hook::Format => match self.e.evaluate(&inner) {
                Ok(e) => {
                    let w = name_of(strength(mask(self.inner)));
                    ensure!(e.to_string() == w, "{}: {} is called {e}", say(), hand_text(self.inner))
                }
                Err(e) => ensure!(e.to_string() == e.clone().to_string(), "{}: unsteady message", say()),
            },
            Hook::CutShort => {
                // an inner evaluation that is itself cut short
                let n = Nosy { env: self.env, e: self.e, cards: inner, inner: &[], ask: Hook::Panic, drop: Hook::None };
                ensure!(guarded(|| self.e.evaluate(n)).is_err(), "{}: a container's panic was swallowed", say());
            }
        }
    }
}

impl AsRef<[Card]> for Nosy<'_> {
    fn as_ref(&self) -> &[Card] {
        self.run(self.ask, "while being asked for");
        &self.cards
    }
}

impl Drop for Nosy<'_> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.run(self.drop, "while dropping")
        }
    }
}

pub fn c05_calls<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let hs = sized();
    let n = hs.len();
    let deep = sized();
    let dn = if env.thorough() { n } else { 16 };
    let depth = if env.thorough() { 4 } else { 3 };
    vec![
        family("nested-and-cut-short", format!("every ordered pair of {n} hands of all sizes x what the container of the first does when asked for its cards (7 kinds) and when dropped (5 kinds): nothing, panic, evaluate the second with this or another evaluator, clone or build an evaluator, format, an inner call that panics; then both again"), n * n, move |c, ctx| {
            let (outer, inner) = (&hs[c / n], &hs[c % n]);
            let e = Evaluator::clone(env.evaluator());
            for (a, ask) in [Hook::None, Hook::Panic, Hook::Evaluate, Hook::EvaluateAnother, Hook::Clone, Hook::Format, Hook::CutShort, Hook::New].into_iter().enumerate() {
                if ask == Hook::New && c % 5 != 0 {
                    continue;
                }
                for (d, drop) in [Hook::None, Hook::Evaluate, Hook::Panic, Hook::Clone, Hook::CutShort].into_iter().enumerate() {
                    ctx.note((c as u64) << 16 | (a as u64) << 8 | d as u64);
                    let how = || format!("container asked: {ask:?}, dropped: {drop:?}, other hand {}", hand_text(inner));
                    let r = guarded(|| e.evaluate(Nosy { env, e: &e, cards: env.cards(outer), inner, ask, drop }));
                    match r {
                        Ok(r) => {
                            ensure!(ask != Hook::Panic && drop != Hook::Panic, "{}: the container's panic was swallowed", how());
                            judge(env, outer, r, &how)
                        }
                        Err(()) => ensure!(ask == Hook::Panic || drop == Hook::Panic, "{}: panicked", how()),
                    }
                    judge(env, inner, e.evaluate(env.cards(inner)), &|| format!("after the call with {}", how()));
                    judge(env, outer, e.evaluate(env.cards(outer)), &|| format!("after the call with {}", how()));
                    ctx.transitions += 4;
                    ctx.traces += 1;
                    ctx.states += 1;
                }
            }
        })
        .describe(|n| format!("nested evaluation: pair {} of hands, asked {}, dropped {}", n >> 16, n >> 8 & 255, n & 255)),
        family("histories-of-sizes", format!("every sequence of {depth} evaluations out of {dn} hands of all sizes and categories on one evaluator"), dn * dn, move |c, ctx| {
            let e = Evaluator::clone(env.evaluator());
            let cards: Vec<Vec<Card>> = deep.iter().map(|i| env.cards(i)).collect();
            for x in 0..dn.pow(depth - 2) {
                let mut seq = vec![c % dn, c / dn];
                let mut y = x;
                for _ in 2..depth {
                    seq.push(y % dn);
                    y /= dn;
                }
                for (k, &h) in seq.iter().enumerate() {
                    ctx.note((c as u64) << 32 | x as u64);
                    // the largest first, so that leftovers would show
                    let h = deep.len() - 1 - h;
                    judge(env, &deep[h], e.evaluate(&cards[h]), &|| format!("after the hands {:?}", seq[..k].iter().map(|&h| hand_text(&deep[deep.len() - 1 - h])).collect::<Vec<_>>()));
                    ctx.transitions += 1;
                }
                ctx.traces += 1;
            }
            ctx.states += 1;
        }),
    ]
}

// ---------------------------------------------------------------- parsing

const STRINGS: [&str; 8] = ["As", "2c", "", "10c", "Ax", "xs", "T\u{2660}", "\u{e9}"];

fn same(s: &str, got: &Result<Card, ParseCardError>) -> bool { *got == model_parse(s).map(refm::card) }

/// A string that panics or parses other strings when it is looked at.
#[derive(Clone)]
struct Peek {
    text: &'static str,
    inner: &'static str,
    what: u8,
}

impl AsRef<str> for Peek {
    fn as_ref(&self) -> &str {
        match self.what {
            1 => boom(),
            2 => {
                let got = self.inner.parse::<Card>();
                ensure!(same(self.inner, &got), "while {:?} is being parsed, {:?} gives {got:?}", self.text, self.inner);
            }
            3 => {
                let list = [self.inner, "Kd", self.inner];
                let mut it = Card::parse_to_iter(list);
                for s in list {
                    let got = it.next().unwrap_or_else(|| fail(format!("while {:?} is being parsed, a batch ends early", self.text)));
                    ensure!(same(s, &got), "while {:?} is being parsed, {s:?} gives {got:?}", self.text);
                }
                let all = Card::parse_to_iter(["3h", "4h"]).try_collect::<Vec<_>>();
                ensure!(all.is_ok(), "while {:?} is being parsed, a good batch fails: {all:?}", self.text);
            }
            4 => {
                let r = guarded(|| Card::parse_to_iter([Peek { what: 1, ..self.clone() }]).next());
                ensure!(r.is_err(), "a string's panic was swallowed");
            }
            _ => {}
        }
        self.text
    }
}

pub fn c11_calls<'a>() -> Family<'a> {
    let n = STRINGS.len();
    family("nested-and-cut-short", format!("every ordered pair of {n} strings x 4 things a string does when it is looked at (panics, parses one string, parses a batch, an inner batch that panics) x 5 positions x 5 ways of consuming; then an ordinary batch"), n * n, move |c, ctx| {
        let (text, inner) = (STRINGS[c / n], STRINGS[c % n]);
        for what in 1..=4u8 {
            for at in 0..5usize {
                for way in 0..5 {
                    ctx.note(((what as usize * 5 + at) * 5 + way) as u64);
                    let list: Vec<Peek> = (0..5).map(|i| Peek { text: if i % 2 == 0 { text } else { "Qh" }, inner, what: if i == at { what } else { 0 } }).collect();
                    let texts: Vec<&str> = list.iter().map(|p| p.text).collect();
                    let how = || format!("strings {texts:?}, the one at {at} does {what} (1 panics, 2 parses {inner:?}, 3 parses a batch, 4 a cut-short batch), consumed in way {way}");
                    let seen: Rc<RefCell<Vec<Result<Card, ParseCardError>>>> = Rc::default();
                    let first_bad = texts.iter().find_map(|s| model_parse(s).err());
                    let r = guarded(|| {
                        let mut it = Card::parse_to_iter(list.clone());
                        match way {
                            0 => {
                                for g in it.by_ref() {
                                    seen.borrow_mut().push(g);
                                }
                            }
                            1 => it.for_each(|g| seen.borrow_mut().push(g)),
                            2 => {
                                let v: Vec<_> = it.collect();
                                seen.borrow_mut().extend(v)
                            }
                            3 => {
                                while let Some(g) = it.next() {
                                    seen.borrow_mut().push(g);
                                }
                            }
                            _ => {
                                let r = it.try_collect::<Vec<_>>();
                                match (&r, &first_bad) {
                                    (Err(e), Some(w)) => ensure!(e == w, "{}: collecting gives {e:?}", how()),
                                    (Ok(v), None) => ensure!(v.len() == 5, "{}: collecting gives {v:?}", how()),
                                    _ => fail(format!("{}: collecting gives {r:?}", how())),
                                }
                            }
                        }
                    });
                    let got = seen.borrow();
                    for (i, g) in got.iter().enumerate() {
                        ensure!(i < 5 && same(texts[i], g), "{}: result {i} is {g:?}", how());
                    }
                    // collecting stops at the first error and does not look further
                    let reached = way < 4 || texts[..at].iter().all(|s| model_parse(s).is_ok());
                    ensure!(r.is_ok() || what == 1, "{}: panicked", how());
                    ensure!(r.is_err() || what != 1 || !reached, "{}: the string's panic was swallowed", how());
                    if way < 4 {
                        let min = if r.is_ok() { 5 } else if way == 2 { 0 } else { at };
                        ensure!(got.len() >= min && (r.is_ok() || got.len() <= at), "{}: {} results", how(), got.len());
                    }
                    // afterwards
                    let v: Vec<_> = Card::parse_to_iter(STRINGS).collect();
                    ensure!(v.len() == n && v.iter().zip(STRINGS).all(|(g, s)| same(s, g)), "after the batch ({}): {v:?}", how());
                    ctx.transitions += 7;
                    ctx.traces += 1;
                    ctx.states += 1;
                }
            }
        }
    })
}

// ---------------------------------------------------------------- shuffling

#[cfg(feature = "rand")]
pub fn c13_calls<'a>() -> Family<'a> {
    use poker::deck;
    use rand::{rngs::StdRng, Error, RngCore, SeedableRng};

    struct Nosy<'a> {
        g: StdRng,
        at: usize,
        n: usize,
        f: &'a dyn Fn(),
    }
    impl Nosy<'_> {
        fn tick(&mut self) {
            if self.n == self.at {
                (self.f)()
            }
            self.n += 1;
        }
    }
    impl RngCore for Nosy<'_> {
        fn next_u32(&mut self) -> u32 {
            self.tick();
            self.g.next_u32()
        }
        fn next_u64(&mut self) -> u64 {
            self.tick();
            self.g.next_u64()
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            self.tick();
            self.g.fill_bytes(b)
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
            self.tick();
            self.g.try_fill_bytes(b)
        }
    }
    let deck_of = |seed: u64| deck::shuffled_with(&mut StdRng::seed_from_u64(seed)).to_vec();
    family("nested-and-cut-short", "for each of 200 seeds, at each of the first 60 draws: the generator panics, shuffles (with another generator, with the default one), or generates a deck; the outer deck and every later one are as if alone", 200, move |c, ctx| {
        let want = deck_of(c as u64);
        let other = deck_of(c as u64 + 1000);
        for at in 0..60 {
            for what in 0..4 {
                ctx.note((at * 4 + what) as u64);
                let called = Cell::new(false);
                let f = || {
                    called.set(true);
                    match what {
                        0 => boom(),
                        1 => ensure!(deck_of(c as u64 + 1000) == other, "seed {c}: within draw {at} of another shuffle the deck is different"),
                        2 => {
                            let d = deck::shuffled();
                            let mut v = d.to_vec();
                            v.sort_by_key(|c| c.unique_integer());
                            v.dedup();
                            ensure!(d.len() == 52 && v.len() == 52, "within draw {at} of another shuffle: {} cards, {} different", d.len(), v.len());
                        }
                        _ => {
                            let v: Vec<Card> = deck::generate().collect();
                            let mut w = v.clone();
                            w.sort_by_key(|c| c.unique_integer());
                            w.dedup();
                            ensure!(v.len() == 52 && w.len() == 52, "generated within a shuffle: {} cards", v.len());
                        }
                    }
                };
                let r = guarded(|| deck::shuffled_with(&mut Nosy { g: StdRng::seed_from_u64(c as u64), at, n: 0, f: &f }).to_vec());
                match r {
                    Ok(d) => {
                        ensure!(what != 0 || !called.get(), "seed {c}: the generator's panic at draw {at} was swallowed");
                        ensure!(d == want, "seed {c}: draw {at} did something else in between ({what}: 1 shuffle, 2 default shuffle, 3 generate) and the deck is different");
                    }
                    Err(()) => ensure!(what == 0, "seed {c}: panicked"),
                }
                ensure!(deck_of(c as u64) == want, "seed {c}: after a shuffle that did {what} (0 panic, 1 shuffle, 2 default shuffle, 3 generate) at draw {at}, the same generator gives another deck");
                ctx.transitions += 3;
                ctx.traces += 1;
                ctx.states += 1;
            }
        }
    })
}
