//! C24: the read-evaluate-print loop.

use std::sync::OnceLock;

use mc::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::{mask, pairs_for, scramble, subsets_in_chunk, Env},
    refm::{self, class_key, hand_text, model_parse, strength, text},
};

use crate::{
    game::{all_sequences, clip, pieces},
    session::{self, plain, Exit, Program, Spec},
};

enum Answer {
    Text(String),
    /// the same words, in any order
    Words(Vec<String>),
    Help,
    Quit,
}

fn words(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split_whitespace().map(|w| w.trim_matches(',').to_string()).collect();
    v.sort();
    v
}

fn answer(env: &Env, line: &str) -> Answer {
    match line {
        "help" => return Answer::Help,
        "quit" => return Answer::Quit,
        _ => {}
    }
    let mut ids = vec![];
    for t in line.split_whitespace() {
        match model_parse(t) {
            Ok(i) => ids.push(i),
            Err(e) => return Answer::Text(plain(&e.to_string())),
        }
    }
    let m = mask(&ids);
    if ids.len() >= 5 && m.count_ones() as usize == ids.len() {
        return Answer::Text(refm::name_of(strength(m)));
    }
    match env.evaluator().evaluate(env.cards(&ids)) {
        Ok(e) => fail(format!("{} is evaluated as {e}", hand_text(&ids))),
        Err(e @ poker::EvalError::CardsNotUnique(_)) => Answer::Words(words(&e.to_string())),
        Err(e) => Answer::Text(e.to_string()),
    }
}

fn run(input: &[u8], color: bool) -> session::Outcome {
    session::run(&Spec { program: Program::Repl, input: input.to_vec(), orders: vec![], color, dealing: Default::default() })
}

/// What is said at the start, and on 'help'.
fn fixed() -> &'static (String, String) {
    static F: OnceLock<(String, String)> = OnceLock::new();
    F.get_or_init(|| {
        let w = plain(&run(b"", false).out);
        let h = plain(&run(b"help\n", false).out);
        match h.strip_prefix(w.as_str()) {
            // the help says what cards are made of; it is not the answer to a bad card
            Some(rest) if rest.contains(&refm::RANK_CHARS.iter().collect::<String>()) && rest.contains("chsd") && !rest.starts_with("Error parsing") => (w.clone(), rest.to_string()),
            _ => fail(format!("'help' prints {:?} after {:?}", clip(&h), clip(&w))),
        }
    })
}

fn judge(env: &Env, ctx: &mut Ctx, input: &str, color: bool) {
    let (welcome, help) = fixed();
    let o = run(input.as_bytes(), color);
    ctx.beat();
    let all = plain(&o.out);
    let Some(mut rest) = all.strip_prefix(welcome.as_str()) else { fail(format!("the session starts with {:?}", clip(&all))) };
    let mut before: Vec<&str> = vec![];
    let mut n = 0;
    let mut ended = false;
    for line in input.lines() {
        n += 1;
        let ok = match answer(env, line) {
            Answer::Quit => {
                ended = true;
                break;
            }
            Answer::Help => rest.strip_prefix(help.as_str()),
            Answer::Text(t) => {
                ctx.mix(t.len() as u64);
                rest.strip_prefix(t.as_str()).and_then(|r| r.strip_prefix('\n'))
            }
            Answer::Words(w) => rest.split_once('\n').filter(|(l, _)| words(l) == w).map(|x| x.1),
        };
        let tail = |v: &[&str]| v.iter().rev().take(4).rev().map(|l| clip(l)).collect::<Vec<_>>();
        let Some(r) = ok else {
            let want = match answer(env, line) {
                Answer::Text(t) => t,
                Answer::Words(w) => w.join(" "),
                _ => "the help text".into(),
            };
            let got: String = rest.chars().take(want.chars().count().max(80) + 40).collect();
            let how = if o.exit == Exit::Normal { String::new() } else { format!(" (session ended: {:?} {})", o.exit, clip(o.err.trim())) };
            fail(format!("line {n} {:?} after {:?} is answered with {:?}, expected {:?}{how}", clip(line), tail(&before), clip_start(&got), clip(&want)));
        };
        rest = r;
        before.push(line);
        if before.len() > 8 {
            before.remove(0);
        }
        ctx.transitions += 1;
    }
    ensure!(rest.trim().is_empty() || n == 0 || !ended || !rest.contains('\n'), "after 'quit' the session goes on: {:?}", clip(rest));
    ensure!(ended || rest.is_empty(), "after the last of {n} lines {:?} is printed", clip(rest));
    match o.exit {
        Exit::Normal => {}
        e => fail(format!("after {n} lines, the last being {:?}, the session ended with {e:?}: {}", before.last().map(|l| clip(l)), clip(o.err.trim()))),
    }
    ctx.traces += 1;
    ctx.states += n;
    ctx.sample(|| format!("{n} lines, the last answered being {:?}", before.last().map(|l| clip(l))));
}

fn clip_start(s: &str) -> String { clip(s.split('\n').next().unwrap_or("")) }

fn joined<S: AsRef<str>>(lines: &[S]) -> String {
    lines.iter().fold(String::new(), |mut a, l| {
        a.push_str(l.as_ref());
        a.push('\n');
        a
    })
}

pub fn pool(env: &Env) -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "help", "help me", "Help", "HELP", "Quit", "quit now", "exit", "As", "As Ks Qs Js", "As As", "As As As As As", "As Ks Qs Js Ts As", "2c 3c 2c 4c 5c 3c 6c",
        "As Ks Qs Js 1s", "As Ks Qs Js Tx", "as ks qs js ts", "10s Js Qs Ks As", "A♠ K♠ Q♠ J♠ T♠", "As,Ks,Qs,Js,Ts", "AsKsQsJsTs", "A", "Asd", "é", "é♠", "\t2c\t7d  9h Tc   Ks ",
        "2c 2c x", "x 2c 2c", "2c 3x 4", "!@#$%^&*()", "2c 3d 4h 5s 7c 8d 9h Js Kc",
    ]
    .map(String::from)
    .to_vec();
    let st = env.strengths();
    let mut last = 99;
    for (i, &s) in st.list.iter().enumerate() {
        if refm::cat(s) != last {
            last = refm::cat(s);
            v.push(hand_text(&st.rep[i]));
        }
    }
    v.push(hand_text(st.rep.last().unwrap()));
    v
}

pub fn c24<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let t = env.thorough();
    let st = env.strengths();
    let mut v = vec![];

    for (name, color) in [("every-strength", false), ("every-strength-in-color", true)] {
        v.push(family(name, "every hand strength as a line of 5 cards and of 5 to 8 cards in another order", 7462usize.div_ceil(200), move |c, ctx| {
            let mut lines = vec![];
            for (i, h) in st.rep.iter().enumerate().skip(c * 200).take(200) {
                lines.push(hand_text(h));
                let mut more = h.to_vec();
                more.extend((0..52).map(|x| (x * 5 + i) % 52).filter(|x| !h.contains(x)).take(i % 4));
                scramble(&mut more, i as u64);
                lines.push(hand_text(&more));
            }
            ctx.note(c as u64);
            judge(env, ctx, &joined(&lines), color);
        }));
    }

    let n = if t { 4 } else { 3 };
    let p = pool(env);
    let seq = all_sequences(p.len(), n);
    let ps = pieces(&seq, if t { 2000 } else { 500 }, n);
    v.push(family("sequences", format!("all sequences of {n} of {} lines: every category, every error, help, odd text", p.len()), ps.len(), move |c, ctx| {
        let lines: Vec<&str> = ps[c].iter().map(|&i| p[i].as_str()).collect();
        ctx.note(c as u64);
        judge(env, ctx, &joined(&lines), false);
    }));

    let mut reps: Vec<[usize; 5]> = vec![];
    let mut last = None;
    for (i, &s) in st.list.iter().enumerate() {
        if last != Some(class_key(s)) {
            last = Some(class_key(s));
            reps.push(st.rep[i]);
        }
    }
    let seq = all_sequences(reps.len(), 2);
    let ps = pieces(&seq, 1000, 2);
    let k = reps.len();
    v.push(family("class-pairs", format!("every class value after every other ({k} x {k})"), ps.len(), move |c, ctx| {
        let lines: Vec<String> = ps[c].iter().map(|&i| hand_text(&reps[i])).collect();
        ctx.note(c as u64);
        judge(env, ctx, &joined(&lines), false);
    }));

    let printable: Vec<char> = (' '..='~').collect();
    v.push(family("tokens", "every line of at most 3 printable characters; every token of 2 printable characters at every place of a hand", 95, move |c, ctx| {
        let a = printable[c];
        let mut lines = vec![a.to_string()];
        for b in &printable {
            lines.push(format!("{a}{b}"));
            for d in &printable {
                lines.push(format!("{a}{b}{d}"));
            }
            for at in 0..5 {
                let mut h = vec!["4s".to_string(), "Jd".into(), "9h".into(), "Kc".into()];
                h.insert(at, format!("{a}{b}"));
                lines.push(h.join(" "));
            }
        }
        lines.retain(|l| !matches!(l.trim(), "help" | "quit"));
        ctx.note(c as u64);
        judge(env, ctx, &joined(&lines), false);
    }));

    if t {
        let printable: Vec<char> = (' '..='~').collect();
        v.push(family("four-character-lines", "every line of 4 printable characters", 95 * 95, move |c, ctx| {
            let (a, b) = (printable[c / 95], printable[c % 95]);
            let mut lines: Vec<String> = printable.iter().flat_map(|d| printable.iter().map(move |e| format!("{a}{b}{d}{e}"))).collect();
            lines.retain(|l| !matches!(l.trim(), "help" | "quit"));
            ctx.note(c as u64);
            judge(env, ctx, &joined(&lines), false);
        }));
    }

    let top: u32 = 0x11_0000;
    v.push(family("characters", "every Unicode character by itself, as rank, as suit and between two cards", (top as usize).div_ceil(512), move |c, ctx| {
        let mut lines = vec![];
        for u in c as u32 * 512..(c as u32 + 1) * 512 {
            // line ends, and the backspace the line editor itself acts on
            if [8, 10, 13].contains(&u) {
                continue;
            }
            if let Some(x) = char::from_u32(u) {
                lines.push(x.to_string());
                lines.push(format!("2c 3d 4h 5s {x}c"));
                lines.push(format!("2c 3d 4h 5s 7{x}"));
                lines.push(format!("2c 3d{x}4h 5s 7c"));
            }
        }
        if !lines.is_empty() {
            ctx.note(c as u64);
            judge(env, ctx, &joined(&lines), false);
        }
    }));

    // ASCII, what looks like a card's characters, and what shares bits with them
    let like: Vec<char> = {
        let mut l: Vec<char> = (' '..='~').collect();
        l.extend("\u{e9}\u{f7}\u{301}\u{2660}\u{2661}\u{2663}\u{2665}\u{2666}\u{3b1}\u{391}\u{410}\u{430}\u{41a}\u{421}\u{441}\u{455}\u{405}\u{4bb}\u{501}\u{500}\u{422}\u{408}\u{51a}\u{39a}\u{3a4}\u{37f}\u{2169}\u{661}\u{664}\u{b2}\u{b3}\u{2074}\u{ff11}\u{131}\u{17f}\u{212a}\u{1f0a1}\u{10ffff}\u{fffd}\u{feff}\u{200b}".chars());
        for c in "23456789TJQKAcshd".chars() {
            for at in [0x80, 0x100, 0x200, 0x1000, 0x1_0000, 0x2_0000, 0x10_0000, 0xfee0] {
                l.extend(char::from_u32(c as u32 + at));
            }
        }
        l.retain(|c| !c.is_whitespace());
        l.sort_unstable();
        l.dedup();
        l
    };
    v.push(family("look-alike-tokens", format!("every token of two out of {} characters (ASCII, what looks like the characters of cards or shares bits with them), by itself and in a hand", like.len()), like.len(), move |c, ctx| {
        let mut lines = vec![];
        for b in &like {
            let s = format!("{}{b}", like[c]);
            lines.push(format!("2c 3d 4h {s} 9s"));
            lines.push(s);
        }
        ctx.note(c as u64);
        judge(env, ctx, &joined(&lines), false);
    }));

    let k = if t { 6 } else { 5 };
    v.push(family("every-hand", format!("all hands of 5 {}cards, the cards in a mixed order", if t { "and 6 " } else { "" }), 48 * 48, move |c, ctx| {
        let (a, b) = (c / 48, a_next(c / 48, c % 48));
        ctx.note(c as u64);
        for k in 5..=k {
            let mut lines = vec![];
            let mut go = |lines: &mut Vec<String>| {
                if !lines.is_empty() {
                    judge(env, ctx, &joined(lines), false);
                    lines.clear();
                }
            };
            if let Some(b) = b {
                mc::env::subsets(k, b + 1, &mut [a, b, 0, 0, 0, 0], 2, &mut |ids| {
                    let mut h = ids.to_vec();
                    scramble(&mut h, (ids[2] * 52 + ids[3]) as u64);
                    lines.push(hand_text(&h));
                    if lines.len() == 20_000 {
                        go(&mut lines);
                    }
                });
            }
            go(&mut lines);
        }
    }));

    v.push(family("sizes", "hands of 0 to 52 different cards, and of up to 300 cards with repeats, in several orders", 53, move |c, ctx| {
        let mut lines = vec![];
        for k in 0..40u64 {
            let mut d: Vec<usize> = (0..52).collect();
            scramble(&mut d, k * 53 + c as u64);
            lines.push(hand_text(&d[..c]));
            if c > 0 {
                let mut e = d[..c].to_vec();
                for j in 0..(k as usize % 9) * c / 4 + 1 {
                    e.push(d[(j * 7 + k as usize) % c]);
                }
                scramble(&mut e, k);
                lines.push(hand_text(&e));
                lines.push(format!("{} {}x", hand_text(&d[..c]), k % 10));
            }
        }
        ctx.note(c as u64);
        judge(env, ctx, &joined(&lines), false);
    }));

    v.push(family("spacing", "cards with spaces, tabs and other white space before, between and after", 1, move |_, ctx| {
        let mut lines = vec![];
        for h in [vec!["Tc", "Jc", "Qc", "Kc", "Ac"], vec!["2s", "2d", "9c", "9h", "9s", "4d"], vec!["2s", "3h"], vec!["2s", "3h", "4d", "9c", "2s"], vec!["4h", "zz", "q"]] {
            for ws in [" ", "  ", "\t", " \t ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}"] {
                for lead in ["", ws] {
                    for trail in ["", ws] {
                        lines.push(format!("{lead}{}{trail}", h.join(ws)));
                    }
                }
            }
        }
        judge(env, ctx, &joined(&lines), false);
    }));

    v.push(family("long-lines", "lines of 2^4..2^20 characters", 17, move |c, ctx| {
        let n = 1usize << (c + 4);
        ctx.note(n as u64);
        let mut lines: Vec<String> = ["9", "x", "é", "As ", "2c 3d ", "As", " "].iter().map(|s| s.repeat(n / s.len())).collect();
        let all: Vec<String> = (0..52).map(text).collect();
        lines.push(format!("{}{}", all.join(" "), " ".repeat(n)));
        lines.push(all.join(&" ".repeat(n / 52 + 1)));
        lines.push("2c 3c 4c 5c 7c".into());
        judge(env, ctx, &joined(&lines), false);
    }));

    v.push(family("leaving", "after 0..40 lines: quit (with more lines behind it) or end of input, the last line ended or not", 41, move |c, ctx| {
        let p = pool(env);
        for off in 0..p.len() {
            let lines: Vec<&str> = (0..c).map(|i| p[(i * 5 + off) % p.len()].as_str()).collect();
            let s = joined(&lines);
            ctx.note(off as u64);
            judge(env, ctx, &s, false);
            judge(env, ctx, s.trim_end_matches('\n'), false);
            judge(env, ctx, &format!("{s}quit\n"), false);
            judge(env, ctx, &format!("{s}quit"), false);
            judge(env, ctx, &format!("{s}quit\n2c 3c 4c 5c 7c\nhelp\n"), false);
        }
    }));

    // every line after every other, at whatever distance
    let worlds: [&[usize]; 6] = [
        &[3, 2, 7, 6, 11, 10, 15, 14, 19, 18],
        &[3, 7, 11, 15, 19, 23, 2, 6, 10, 14],
        &[48, 49, 50, 51, 44, 45, 46, 47, 40, 41],
        &[48, 0, 4, 8, 12, 16, 49, 1, 5, 9],
        &[32, 36, 40, 44, 48, 33, 37, 41, 45, 49],
        &[0, 13, 26, 39, 1, 14, 27, 40, 2, 51],
    ];
    v.push(family("small-worlds", "in one session, forwards, backwards and in two other orders: all hands of 5, 6 and (in thorough) 7 cards, repeats included, from 10 cards (6 choices of them)", 6, move |c, ctx| {
        let w = worlds[c];
        fn go(w: &[usize], from: usize, n: usize, cur: &mut Vec<usize>, out: &mut Vec<String>) {
            if n == 0 {
                let mut h = cur.clone();
                scramble(&mut h, out.len() as u64);
                out.push(hand_text(&h));
                return;
            }
            for i in from..w.len() {
                cur.push(w[i]);
                go(w, i, n - 1, cur, out);
                cur.pop();
            }
        }
        let mut lines = vec![];
        for n in 5..=if t { 7 } else { 6 } {
            go(w, 0, n, &mut vec![], &mut lines);
        }
        lines.extend(lines.clone().into_iter().rev());
        judge(env, ctx, &joined(&lines), false);
        for k in 0..2 {
            scramble(&mut lines, k);
            judge(env, ctx, &joined(&lines), false);
        }
    }));

    let m = if t { 300_000 } else { 30_000 };
    v.push(family("long-sessions", format!("4 sessions of {m} lines: one line again and again, two in turn, the pool over and over, ever new hands"), 4, move |c, ctx| {
        let p = pool(env);
        let mut s = String::new();
        for i in 0..m {
            match c {
                0 => s.push_str("2c 3c 4c 5c 7c"),
                1 => s.push_str(["2c 3c 4c 5c 7c", "2c 3c 2c 5c 7c"][i % 2]),
                2 => s.push_str(&p[i % p.len()]),
                _ => s.push_str(&hand_text(&st.rep[(i * 31) % 7462])),
            }
            s.push('\n');
        }
        judge(env, ctx, &s, false);
    }));

    if t {
        let heads = pairs_for(5);
        v.push(family("every-hand", "all 2,598,960 five-card hands", heads.len(), move |c, ctx| {
            let mut lines = vec![];
            subsets_in_chunk(5, heads[c], &mut |ids| lines.push(hand_text(ids)));
            for part in lines.chunks(20_000) {
                judge(env, ctx, &joined(part), false);
            }
        }));
    }
    v
}

/// The i-th number above a, if a hand of five can go on from it.
fn a_next(a: usize, i: usize) -> Option<usize> { Some(a + 1 + i).filter(|&b| b + 3 < 52) }
