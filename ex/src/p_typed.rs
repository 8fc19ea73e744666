//! C23, C24: the programs at a terminal, key by key.

use mc::{
    engine::{fail, family, Ctx, Family},
    env::Env,
};

use crate::{
    game::{clip, controlled, dealing, Script},
    session::{self, plain, Exit, Order, Program, Spec},
};

const ENTER: &str = "\r";
const BACK: &str = "\u{7f}";
const KILL: &str = "\u{15}";
const CTRL_C: &str = "\u{3}";
const CTRL_D: &str = "\u{4}";
const UP: &str = "\u{10}";
const DOWN: &str = "\u{e}";

fn name(k: &str) -> String {
    match k {
        ENTER => "Enter".into(),
        BACK => "Backspace".into(),
        KILL => "CTRL+U".into(),
        CTRL_C => "CTRL+C".into(),
        CTRL_D => "CTRL+D".into(),
        UP => "CTRL+P (the line before)".into(),
        DOWN => "CTRL+N (the line after)".into(),
        k => format!("{k:?}"),
    }
}

/// Messages may name cards in any order.
fn words(lines: &[String]) -> Vec<Vec<&str>> {
    lines
        .iter()
        .map(|l| {
            let mut v: Vec<&str> = l.split_whitespace().collect();
            v.sort();
            v
        })
        .collect()
}

macro_rules! must {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

/// The session typed, against the session of the same lines piped in.
fn compare(ctx: &mut Ctx, spec: &Spec, keys: &[&str]) -> Result<(), String> {
    let Some(t) = session::run_typed(spec, keys) else { return Ok(()) };
    let typed = || keys[..(t.chunks.len() - 1).min(keys.len())].iter().map(|k| name(k)).collect::<Vec<_>>().join(" ");
    match &t.exit {
        None | Some(Exit::Normal) => {}
        Some(e) => return Err(format!("typing {} ends the program with {e:?}: {}", typed(), clip(t.err.trim()))),
    }
    // the lines that were entered, and what was said meanwhile
    let (mut line, mut lines, mut said): (String, Vec<String>, Vec<String>) = (String::new(), vec![], vec![]);
    let lines_of = |c: &str, first: bool, last: bool, v: &mut Vec<String>| {
        let mut l: Vec<&str> = c.split('\n').collect();
        if !first {
            l.remove(0);
        }
        // the prompt; or nothing, where the program ended
        let p = l.pop();
        if let (true, Some(p)) = (last, p) {
            if !p.is_empty() {
                l.push(p);
            }
        }
        v.extend(l.into_iter().map(String::from));
    };
    let n = t.chunks.len();
    lines_of(&t.chunks[0], true, n == 1, &mut said);
    let mut over = false;
    // earlier lines, to be brought back; where in them we are; what was typed before
    let (mut past, mut pos, mut kept): (Vec<String>, usize, String) = Default::default();
    for (i, (&k, c)) in keys.iter().zip(&t.chunks[1..]).enumerate() {
        let last = t.exit.is_some() && i + 2 == n;
        ctx.states += 1;
        ctx.transitions += 1;
        let ends = match k {
            ENTER => {
                if !line.is_empty() && past.last() != Some(&line) {
                    past.push(line.clone());
                }
                pos = past.len();
                lines.push(std::mem::take(&mut line));
                lines_of(c, false, last, &mut said);
                continue;
            }
            BACK => {
                line.pop();
                false
            }
            KILL => {
                line.clear();
                false
            }
            UP => {
                if pos == past.len() {
                    kept = line.clone();
                }
                if pos > 0 {
                    pos -= 1;
                    line = past[pos].clone();
                }
                false
            }
            DOWN => {
                if pos < past.len() {
                    pos += 1;
                    line = past.get(pos).unwrap_or(&kept).clone();
                }
                false
            }
            CTRL_C => true,
            CTRL_D => line.is_empty(),
            k => {
                line.push_str(k);
                false
            }
        };
        if ends {
            over = true;
            must!(last, "typing {} does not end the session", typed());
            lines_of(c, false, true, &mut said);
        } else {
            must!(!last, "after typing {} the session ends", typed());
            must!(!c.contains('\n'), "typing {} is answered with {:?} before Enter", typed(), clip(c));
        }
    }
    must!(t.exit.is_some() || !over, "typing {} does not end the session", typed());
    ctx.traces += 1;
    ctx.beat();
    if spec.program == Program::Game && !controlled() {
        return Ok(()); // the cards come as they come
    }
    let piped = session::run(&Spec { input: lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes(), ..spec.clone() });
    let want: Vec<String> = plain(&piped.out).replace(['\r', '\u{7}'], "").lines().map(String::from).collect();
    if words(&want) != words(&said) {
        let at = want.iter().zip(&said).position(|(a, b)| a != b).unwrap_or(want.len().min(said.len()));
        return Err(format!(
            "typing {}: the terminal shows {:?} where the same lines read from a pipe give {:?} (line {} of what is said)",
            typed(),
            said.get(at).map(|l| clip(l)),
            want.get(at).map(|l| clip(l)),
            at + 1
        ));
    }
    ctx.outcome(said.len() as u64);
    ctx.sample(|| format!("{}: {} lines entered, {} shown", typed(), lines.len(), said.len()));
    Ok(())
}

/// What is wrong is wrong every time; a terminal that was slow is not.
fn judge(ctx: &mut Ctx, spec: &Spec, keys: &[&str]) {
    for tries in 0.. {
        match compare(ctx, spec, keys) {
            Ok(()) => return,
            Err(e) if tries == 4 => fail(e),
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(50)),
        }
    }
}


fn odometer(idx: &mut [usize], k: usize) -> bool {
    for p in (0..idx.len()).rev() {
        idx[p] += 1;
        if idx[p] < k {
            return true;
        }
        idx[p] = 0;
    }
    false
}

fn typed<'a>(name: &'static str, bound: String, alphabet: Vec<&'static str>, depth: usize, start: Vec<&'static str>, spec: impl Fn() -> Spec + Sync + Send + 'a) -> Family<'a> {
    let k = alphabet.len();
    family(name, bound, k * k, move |c, ctx| {
        let (a, b) = (c / k, c % k);
        let spec = spec();
        let mut idx = vec![0usize; depth - 2];
        ctx.note(c as u64);
        loop {
            let mut keys = start.clone();
            keys.extend([a, b].iter().chain(&idx).map(|&i| alphabet[i]));
            // keys after the end are never typed
            keys.extend([KILL, CTRL_D]);
            judge(ctx, &spec, &keys);
            if !odometer(&mut idx, k) {
                return;
            }
        }
    })
}

/// All sequences of lines of a menu, each typed and entered.
fn lines<'a>(name: &'static str, menu: Vec<String>, depth: usize, spec: impl Fn() -> Spec + Sync + Send + 'a) -> Family<'a> {
    let k = menu.len();
    family(name, format!("at a terminal: all sequences of {depth} of {k} lines"), k, move |c, ctx| {
        let spec = spec();
        let mut idx = vec![0usize; depth - 1];
        ctx.note(c as u64);
        loop {
            let mut keys = vec![];
            for i in [c].iter().chain(&idx) {
                if !menu[*i].is_empty() {
                    keys.push(menu[*i].as_str());
                }
                keys.push(ENTER);
            }
            keys.push(CTRL_D);
            judge(ctx, &spec, &keys);
            if !odometer(&mut idx, k) {
                return;
            }
        }
    })
}

pub fn repl<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let n = if env.thorough() { 5 } else { 4 };
    let spec = || Spec { program: Program::Repl, input: vec![], orders: vec![], color: false, dealing: Default::default() };
    let a = vec![ENTER, BACK, KILL, CTRL_C, CTRL_D, "2c ", "As Ks Qs Js Ts", " 2d", "quit", "help", "x"];
    let menu: Vec<String> = crate::p_repl::pool(env).into_iter().filter(|l| l.len() < 100 && !l.contains(|c: char| c.is_control())).collect();
    let b = vec![ENTER, UP, DOWN, BACK, "2c ", "As Ks Qs Js Ts", "help"];
    let m = n + 1;
    let recall = typed("typed-recall", format!("at a terminal: all sequences of {m} of {} keys and key groups (Enter, Backspace, CTRL+P and CTRL+N for the lines before and after, cards, help)", b.len()), b, m, vec![], spec);
    vec![lines("typed-lines", menu, 2, spec), recall, typed("typed", format!("at a terminal: all sequences of {n} of {} keys and key groups (Enter, Backspace, CTRL+U, CTRL+C, CTRL+D, cards, commands)", a.len()), a, n, vec![], spec)]
}

pub fn game<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let n = if env.thorough() { 5 } else { 4 };
    let spec = || {
        let mut s = Script::new();
        for k in 0..12 {
            s.orders.push(Order { rotate: k * 5, ..Order::default() });
        }
        Spec { program: Program::Game, dealing: dealing().unwrap_or_default(), ..s.spec() }
    };
    let a = vec![ENTER, BACK, CTRL_C, CTRL_D, "1", "5", " 2", "quit", "x"];
    let menu = ["1", "5", "", "2 5", "0", "x"].map(String::from).to_vec();
    let mut v = vec![lines("typed-lines", menu, n, spec)];
    for (name, start) in [("typed-wager", vec![]), ("typed-swap", vec!["2", ENTER])] {
        v.push(typed(name, format!("at a terminal: all sequences of {n} of {} keys and key groups (Enter, Backspace, CTRL+C, CTRL+D, numbers, quit) from the {} prompt on", a.len(), if name == "typed-swap" { "swap" } else { "wager" }), a.clone(), n, start, spec));
    }
    v
}
