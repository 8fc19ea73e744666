//! The video poker game: building sessions and judging their transcripts.

use std::{collections::HashMap, sync::OnceLock};

use mc::{
    engine::fail,
    env::mask,
    ensure,
    refm::{self, class_key, strength},
};

use crate::session::{self, plain, Dealing, Exit, Order, Outcome, Program, Spec};

/// What a session is judged for; the rest is left to the other properties.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum About {
    Credits,
    Cards,
    Input,
}

// ---------------------------------------------------------------- the rules

/// Winnings for a final hand.
pub fn payout(wager: u64, s: u32) -> u64 {
    wager
        * match refm::cat(s) {
            refm::PAIR if refm::nth(s, 0) >= 9 => 1,
            refm::TWO_PAIR => 2,
            refm::TRIPS => 3,
            refm::STRAIGHT => 4,
            refm::FLUSH => 6,
            refm::FULL_HOUSE => 9,
            refm::QUADS => 25,
            refm::STRAIGHT_FLUSH if refm::nth(s, 0) < 12 => 50,
            refm::STRAIGHT_FLUSH if wager == 5 => 800,
            refm::STRAIGHT_FLUSH => 250,
            _ => 0,
        }
}

/// What may be done with a line of input.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Reading<T> {
    Accept(T),
    Refuse,
    /// the text does not say
    Either(T),
    Quit,
}

/// A number as people write it, and whether there is no doubt about it.
fn number(t: &str) -> Option<(u64, bool)> {
    let digits = t.strip_prefix('+').unwrap_or(t);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let v = digits.trim_start_matches('0');
    let v = if v.len() > 9 { 999_999_999 } else { v.parse().unwrap_or(0) };
    Some((v, digits.len() == t.len() && (!t.starts_with('0') || t == "0")))
}

pub fn read_wager(line: &str, credits: u64) -> Reading<u64> {
    if line == "quit" {
        return Reading::Quit;
    }
    match number(line.trim()) {
        Some((v, sure)) if (1..=5).contains(&v) && v <= credits => {
            if sure && line.trim() == line {
                Reading::Accept(v)
            } else {
                Reading::Either(v)
            }
        }
        _ => Reading::Refuse,
    }
}

pub fn read_swaps(line: &str) -> Reading<Vec<usize>> {
    if line == "quit" {
        return Reading::Quit;
    }
    let mut v = vec![];
    let mut all_sure = line.chars().all(|c| !c.is_whitespace() || c == ' ' || c == '\t');
    for t in line.split_whitespace() {
        match number(t) {
            Some((n, sure)) if (1..=5).contains(&n) && !v.contains(&(n as usize - 1)) => {
                v.push(n as usize - 1);
                all_sure &= sure;
            }
            _ => return Reading::Refuse,
        }
    }
    if all_sure {
        Reading::Accept(v)
    } else {
        Reading::Either(v)
    }
}

/// The numbers in a text, without leading zeros.
fn digits(t: &str) -> Vec<&str> {
    let short = |d: &'_ str| d.len() - d.trim_start_matches('0').len().max(1);
    t.split(|c: char| !c.is_ascii_digit()).filter(|d| !d.is_empty()).map(|d| &d[short(d)..]).collect()
}

/// What a refusal says that is not so: a number that is neither in the input
/// nor a limit nor the credits; a number called duplicate that is not.
fn untrue(text: &str, line: &str, credits: Option<u64>) -> Option<String> {
    let given = digits(line);
    let credits = credits.map(|c| c.to_string());
    for d in digits(text) {
        if d != "1" && d != "5" && Some(d) != credits.as_deref() && !given.contains(&d) {
            return Some(format!("where {d} is neither in the input nor a limit{}", if credits.is_some() { " nor the credits" } else { "" }));
        }
    }
    let (head, named) = text.rsplit_once(':')?;
    if credits.is_none() && head.to_lowercase().contains("duplicate") && !line.contains(':') && !line.to_lowercase().contains("duplicate") {
        let numbers: Vec<u128> = line.split_whitespace().filter_map(|t| t.parse().ok()).collect();
        let mut twice: Vec<u128> = numbers.iter().copied().filter(|n| numbers.iter().filter(|m| *m == n).count() > 1).collect();
        twice.sort();
        twice.dedup();
        let mut named: Vec<u128> = digits(named).iter().filter_map(|t| t.parse().ok()).collect();
        named.sort();
        if named != twice {
            return Some(format!("but the numbers given more than once are {twice:?}"));
        }
    }
    None
}

// ---------------------------------------------------------------- transcripts

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Wager(u64),
    Swap,
    Hand([usize; 5], String),
    Better,
    Worse,
    Winnings(String),
    GameOver,
    Text(String),
}

fn faces() -> &'static HashMap<String, usize> {
    static F: OnceLock<HashMap<String, usize>> = OnceLock::new();
    F.get_or_init(|| (0..52).map(|i| (format!("[ {}{} ]", refm::RANK_CHARS[i / 4], refm::SUIT_SYMBOLS[i % 4]), i)).collect())
}

fn hand_line(line: &str) -> Option<([usize; 5], String)> {
    let mut ids = vec![];
    let mut rest = line.trim_start();
    while rest.starts_with("[ ") {
        let end = rest.find(']')? + 1;
        ids.push(*faces().get(&rest[..end])?);
        rest = rest[end..].trim_start();
    }
    Some((ids.try_into().ok()?, rest.trim_end().to_string()))
}

fn event(line: &str) -> Event {
    if line.starts_with("Enter a wager") {
        if let Some(at) = line.find("Credits:") {
            let n: String = line[at + 8..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = n.parse() {
                return Event::Wager(n);
            }
        }
    }
    if line.starts_with("Enter the cards") {
        return Event::Swap;
    }
    if let Some((h, n)) = hand_line(line) {
        return Event::Hand(h, n);
    }
    if line.starts_with("You got a better hand") {
        return Event::Better;
    }
    if line.starts_with("You got a worse hand") {
        return Event::Worse;
    }
    if let Some(n) = line.strip_prefix("Winnings:") {
        return Event::Winnings(n.trim().to_string());
    }
    if line.starts_with("Game over") {
        return Event::GameOver;
    }
    Event::Text(line.to_string())
}

pub fn events(out: &str) -> Vec<Event> {
    plain(out).lines().filter(|l| !l.trim().is_empty()).map(event).collect()
}

#[derive(Clone, Debug, Default)]
pub struct Round {
    pub before: u64,
    pub wager: u64,
    pub first: [usize; 5],
    pub swaps: Vec<usize>,
    pub second: [usize; 5],
    pub winnings: u64,
    pub after: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// 'quit', or the input ended
    Left,
    Broke,
    /// what another property is about went wrong
    Lost,
}

#[derive(Debug)]
pub struct Played {
    pub rounds: Vec<Round>,
    pub end: End,
    pub events: usize,
    pub refusals: usize,
    pub outcome: Outcome,
}

struct Judge<'a> {
    about: About,
    spec: &'a Spec,
    events: Vec<Event>,
    lines: Vec<&'a str>,
    at: usize,
    line: usize,
}

enum Answer<T> {
    Accepted(T),
    Left,
}

impl Judge<'_> {
    fn story(&self) -> String {
        let lines: Vec<String> = self.lines[..self.line.min(self.lines.len())].iter().rev().take(8).rev().map(|l| clip(l)).collect();
        let from = self.at.saturating_sub(6);
        let evs: Vec<String> = self.events[from..(self.at + 3).min(self.events.len())].iter().map(show).collect();
        format!(
            "after {} lines of input, the last being {lines:?}; output around there: {}",
            self.line.min(self.lines.len()),
            evs.join(" | ")
        )
    }

    fn bad<T>(&self, about: &[About], what: String) -> Result<T, ()> {
        if about.contains(&self.about) {
            fail(format!("{what} ({})", self.story()))
        }
        Err(())
    }

    fn peek(&self) -> Option<&Event> { self.events.get(self.at) }

    fn texts(&mut self) -> usize {
        let from = self.at;
        while let Some(Event::Text(_)) = self.peek() {
            self.at += 1;
        }
        self.at - from
    }

    /// Lines of input until one is accepted; `again` says whether an event is
    /// the same prompt again.
    fn ask<T: Clone>(
        &mut self,
        what: &str,
        read: impl Fn(&str) -> Reading<T>,
        credits: Option<u64>,
        again: impl Fn(&Event) -> Result<bool, String>,
        refusals: &mut usize,
    ) -> Result<Answer<T>, ()> {
        loop {
            let Some(&line) = self.lines.get(self.line) else {
                self.line += 1;
                self.texts();
                if let Some(e) = self.peek() {
                    let e = show(e);
                    return self.bad(&[About::Input], format!("at the {what} prompt the input ended, but the game goes on with {e}"));
                }
                return Ok(Answer::Left);
            };
            let r = read(line);
            self.line += 1;
            let from = self.at;
            let said = self.texts();
            let refused = match self.peek() {
                None => false,
                Some(e) => match again(e) {
                    Ok(b) => b,
                    Err(d) => return self.bad(&[About::Input, About::Credits], format!("after refusing {:?}, {d}", clip(line))),
                },
            };
            let over = self.peek().is_none();
            match r {
                Reading::Quit => {
                    if over {
                        return Ok(Answer::Left);
                    }
                    let e = show(self.peek().unwrap());
                    return self.bad(&[About::Input], format!("at the {what} prompt 'quit' was entered, but the game goes on with {e}"));
                }
                _ if over => {
                    return self.bad(&[About::Input], format!("at the {what} prompt {:?} made the game end", clip(line)));
                }
                Reading::Accept(_) if refused => {
                    return self.bad(&[About::Input], format!("{:?} was refused as {what}", clip(line)));
                }
                Reading::Refuse if !refused => {
                    return self.bad(&[About::Input], format!("{:?} was accepted as {what}", clip(line)));
                }
                _ if refused => {
                    if said == 0 {
                        return self.bad(&[About::Input], format!("{:?} was refused as {what} without a message", clip(line)));
                    }
                    for e in &self.events[from..from + said] {
                        let Event::Text(t) = e else { continue };
                        if let Some(d) = untrue(t, line, credits) {
                            return self.bad(&[About::Input], format!("{:?} was refused as {what} with {:?}, {d}", clip(line), clip(t)));
                        }
                    }
                    *refusals += 1;
                    self.at += 1;
                }
                Reading::Accept(v) | Reading::Either(v) => return Ok(Answer::Accepted(v)),
                Reading::Refuse => unreachable!(),
            }
        }
    }

    fn hand(&mut self, which: &str) -> Result<[usize; 5], ()> {
        self.texts();
        let Some(Event::Hand(h, name)) = self.peek().cloned() else {
            return self.bad(&[About::Cards, About::Credits, About::Input], format!("no {which} hand was shown"));
        };
        let m = mask(&h);
        if m.count_ones() != 5 {
            return self.bad(&[About::Cards], format!("the {which} hand is {}, not five different cards", refm::hand_text(&h)));
        }
        let want = refm::name_of(strength(m));
        if self.about == About::Cards && name != format!("({want})") {
            return self.bad(&[About::Cards], format!("the {which} hand {} is called {name:?}, it is a {want:?}", refm::hand_text(&h)));
        }
        self.at += 1;
        if let (Some(Event::Text(t)), "dealt") = (self.peek(), which) {
            // the numbers under the cards, if there are any
            let n: Vec<&str> = t.split('(').skip(1).filter_map(|x| x.split_once(')')).map(|x| x.0).filter(|x| x.parse::<u64>().is_ok()).collect();
            if !n.is_empty() && n != ["1", "2", "3", "4", "5"] {
                return self.bad(&[About::Cards], format!("the cards are numbered {n:?}"));
            }
        }
        Ok(h)
    }

    fn play(&mut self, rounds: &mut Vec<Round>, refusals: &mut usize) -> Result<End, ()> {
        self.texts();
        let mut credits = 100;
        loop {
            let mut r = Round { before: credits, ..Round::default() };
            self.texts();
            match self.peek() {
                Some(Event::Wager(c)) if *c == credits => {}
                Some(Event::Wager(c)) if self.about != About::Credits => {
                    // what another property is about; go on with what is shown
                    credits = *c;
                    r.before = credits;
                }
                Some(Event::Wager(c)) => {
                    let c = *c;
                    return self.bad(&[About::Credits], format!("the balance is {credits} credits, {c} are shown"));
                }
                _ => return self.bad(&[About::Credits, About::Input], format!("with {credits} credits left, no wager was asked for")),
            }
            self.at += 1;
            let again = move |e: &Event| match e {
                Event::Wager(c) if *c == credits => Ok(true),
                Event::Wager(c) => Err(format!("{c} instead of {credits} credits are shown")),
                _ => Ok(false),
            };
            r.wager = match self.ask("wager", |l| read_wager(l, credits), Some(credits), again, refusals)? {
                Answer::Left => return Ok(End::Left),
                Answer::Accepted(w) => w,
            };
            r.first = self.hand("dealt")?;
            self.texts();
            if self.peek() != Some(&Event::Swap) {
                return self.bad(&[About::Cards, About::Input], "no cards to swap were asked for".into());
            }
            self.at += 1;
            r.swaps = match self.ask("cards to swap", read_swaps, None, |e| Ok(*e == Event::Swap), refusals)? {
                Answer::Left => return Ok(End::Left),
                Answer::Accepted(s) => s,
            };
            r.second = self.hand("final")?;
            let (a, b) = (r.first, r.second);
            for i in 0..5 {
                if !r.swaps.contains(&i) && a[i] != b[i] {
                    return self.bad(&[About::Cards, About::Input], format!("positions {:?} were swapped, but card {} changed too", plus_one(&r.swaps), i + 1));
                }
            }
            let (s1, s2) = (strength(mask(&a)), strength(mask(&b)));
            let want_remark = class_key(s2).cmp(&class_key(s1)) as i8;
            let (mut remark, mut announced, mut over) = (vec![], vec![], false);
            loop {
                match self.peek() {
                    Some(Event::Better) => remark.push(1),
                    Some(Event::Worse) => remark.push(-1),
                    Some(Event::Winnings(n)) => announced.push(n.clone()),
                    Some(Event::GameOver) => over = true,
                    Some(Event::Text(_)) => {}
                    _ => break,
                }
                self.at += 1;
            }
            let want: &[i8] = if want_remark == 0 { &[] } else { &[want_remark] };
            if self.about == About::Cards && remark != want {
                return self.bad(
                    &[About::Cards],
                    format!(
                        "going from {} to {}, the remarks are {remark:?}, expected {want:?} (1 better, -1 worse)",
                        refm::hand_text(&a),
                        refm::hand_text(&b)
                    ),
                );
            }
            r.winnings = payout(r.wager, s2);
            if self.about == About::Credits && announced != [r.winnings.to_string()] {
                return self.bad(
                    &[About::Credits],
                    format!("{} with a wager of {} wins {}, announced: {announced:?}", refm::hand_text(&b), r.wager, r.winnings),
                );
            }
            credits = credits - r.wager + if r.winnings > 0 { r.wager + r.winnings } else { 0 };
            r.after = credits;
            rounds.push(r);
            let ended = self.peek().is_none();
            if self.about != About::Credits {
                if ended {
                    return Ok(if over { End::Broke } else { End::Lost });
                }
                continue;
            }
            if over != (credits == 0) || ended && credits != 0 || !ended && credits == 0 {
                return self.bad(
                    &[About::Credits],
                    format!("{credits} credits are left, 'Game over!' {}, the game {}", if over { "appears" } else { "does not appear" }, if ended { "ends" } else { "goes on" }),
                );
            }
            if ended {
                return Ok(End::Broke);
            }
        }
    }
}

fn plus_one(v: &[usize]) -> Vec<usize> { v.iter().map(|i| i + 1).collect() }

pub fn clip(s: &str) -> String {
    if s.chars().count() > 60 {
        format!("{}...({} characters)", s.chars().take(50).collect::<String>(), s.chars().count())
    } else {
        s.into()
    }
}

fn show(e: &Event) -> String {
    match e {
        Event::Hand(h, n) => format!("{} {n}", refm::hand_text(h)),
        Event::Text(t) => format!("{:?}", clip(t)),
        e => format!("{e:?}"),
    }
}

/// Run a session and judge it.
pub fn play(about: About, spec: &Spec) -> Played {
    let outcome = session::run(spec);
    let text = std::str::from_utf8(&spec.input).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let mut j = Judge { about, spec, events: events(&outcome.out), lines, at: 0, line: 0 };
    let (mut rounds, mut refusals) = (vec![], 0);
    let how = match outcome.exit {
        Exit::Normal => None,
        Exit::Panic => Some(format!("panicked: {}", clip(outcome.err.trim()))),
        Exit::Code(c) => Some(format!("ended with code {c}: {}", clip(outcome.err.trim()))),
        Exit::Signal(s) => Some(format!("did not end by itself (signal {s})")),
    };
    let r = if let Some(how) = &how {
        // say where, if the transcript is in order up to there
        j.about = About::Credits;
        let n = j.events.len();
        j.at = n.saturating_sub(3);
        j.line = 0;
        fail(format!("the game {how}; input {}; it last said {:?}", input_text(j.spec), j.events[j.at..].iter().map(show).collect::<Vec<_>>()))
    } else {
        j.play(&mut rounds, &mut refusals)
    };
    let end = r.unwrap_or(End::Lost);
    let events = j.events.len();
    Played { rounds, end, events, refusals, outcome }
}

fn input_text(s: &Spec) -> String {
    let t = String::from_utf8_lossy(&s.input);
    let v: Vec<&str> = t.lines().collect();
    if v.len() > 12 {
        format!("of {} lines ending in {:?}", v.len(), v[v.len() - 8..].iter().map(|l| clip(l)).collect::<Vec<_>>())
    } else {
        format!("{:?}", v.iter().map(|l| clip(l)).collect::<Vec<_>>())
    }
}

// ---------------------------------------------------------------- sessions

/// Builds a session: the input, and how every shuffle on the way comes out.
#[derive(Clone)]
pub struct Script {
    pub input: String,
    pub orders: Vec<Order>,
}

impl Script {
    pub fn new() -> Script { Script { input: String::new(), orders: vec![] } }

    pub fn line(&mut self, l: &str) {
        self.input.push_str(l);
        self.input.push('\n');
    }

    /// A round: deal, wager, swap, draw. Shuffles: one before every deal, one
    /// more when cards are swapped.
    pub fn round(&mut self, deal: Order, wager: u64, swaps: &[usize], draw: Order) {
        self.orders.push(deal);
        self.line(&wager.to_string());
        self.line(&swap_text(swaps));
        if !swaps.is_empty() {
            self.orders.push(draw);
        }
    }

    pub fn stand(&mut self, hand: &[usize], wager: u64) { self.round(Order::front(hand), wager, &[], Order::default()) }

    pub fn spec(&self) -> Spec {
        self.spec_from(dealing().unwrap_or_default())
    }

    fn spec_from(&self, dealing: Dealing) -> Spec {
        Spec { program: Program::Game, input: self.input.clone().into_bytes(), orders: self.orders.clone(), color: false, dealing }
    }
}

/// How the game deals, as found by trying; without an answer the cards come as
/// they come, and only what the transcript says is judged.
pub fn dealing() -> Option<Dealing> {
    static C: OnceLock<Option<Dealing>> = OnceLock::new();
    *C.get_or_init(|| {
        let mut s = Script::new();
        let (a, b, c) = ([3, 14, 25, 36, 47], [50, 1, 18, 29, 40], [7, 8, 20, 33, 45]);
        s.stand(&ROYAL, 5);
        s.round(Order::front(&a), 1, &[0, 1, 2, 3, 4], Order::front(&b));
        s.round(Order::front(&c), 1, &[3, 1], Order::front(&[51, 0]));
        s.stand(&a, 1);
        // of the hands shown, the dealt ones
        let want: Vec<[usize; 5]> = vec![ROYAL, a, c, a];
        for skip in 0..=1 {
            for back in [false, true] {
                let d = Dealing { back, skip };
                let out = session::run(&s.spec_from(d));
                let got: Vec<[usize; 5]> = events(&out.out).into_iter().filter_map(|e| if let Event::Hand(h, _) = e { Some(h) } else { None }).step_by(2).collect();
                if got == want {
                    return Some(d);
                }
            }
        }
        eprintln!("note: the cards of the game do not follow the harness; only transcripts are judged");
        None
    })
}

pub fn controlled() -> bool { dealing().is_some() }

pub fn swap_text(swaps: &[usize]) -> String { swaps.iter().map(|s| (s + 1).to_string()).collect::<Vec<_>>().join(" ") }

/// Ten, jack, queen, king, ace of spades: 4000 credits for a wager of 5.
pub const ROYAL: [usize; 5] = [32, 36, 40, 44, 48];
/// Seven high.
pub const JUNK: [usize; 5] = [0, 5, 10, 15, 20];

/// All 326 ordered choices of positions.
pub fn swap_lists() -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < out.len() {
        for i in 0..5 {
            if !out[at].contains(&i) {
                let mut v = out[at].clone();
                v.push(i);
                out.push(v);
            }
        }
        at += 1;
    }
    out
}

/// Every sequence of `n` out of `k` symbols appears in it (a de Bruijn
/// sequence, opened up).
pub fn all_sequences(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            go(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                go(t + 1, t, k, n, a, out);
            }
        }
    }
    go(1, 1, k, n, &mut a, &mut out);
    let head: Vec<usize> = out[..(n - 1).min(out.len())].to_vec();
    out.extend(head);
    out
}

/// Pieces of at most `len` new elements, each overlapping the one before by
/// `n - 1`.
pub fn pieces(all: &[usize], len: usize, n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    let mut at = 0;
    while at + n <= all.len() {
        let end = (at + len + n - 1).min(all.len());
        v.push(all[at..end].to_vec());
        at += len;
    }
    v
}

pub fn check_sequences(k: usize, n: usize) {
    let all = all_sequences(k, n);
    let mut seen = std::collections::HashSet::new();
    for p in pieces(&all, 7, n) {
        for w in p.windows(n) {
            seen.insert(w.to_vec());
        }
    }
    ensure!(seen.len() == k.pow(n as u32), "harness: sequences incomplete");
}
