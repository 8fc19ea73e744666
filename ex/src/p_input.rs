//! C23: input.

use mc::{
    engine::{fail, family, Ctx, Family},
    ensure,
    env::Env,
    refm::hand_text,
};

use crate::{
    game::*,
    p_credits::{count, fund, lose_down_to},
    session::Order,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    Wager,
    Swap,
}

fn judge(ctx: &mut Ctx, s: &Script) -> Played {
    let p = play(About::Input, &s.spec());
    count(ctx, &p);
    ctx.states += s.input.lines().count() as u64;
    ctx.outcome(p.refusals as u64);
    ctx.sample(|| format!("{} lines of input, {} refused, {} rounds", s.input.lines().count(), p.refusals, p.rounds.len()));
    p
}

/// The rounds that are played whatever was refused in between.
fn same_game(ctx: &mut Ctx, with: &Script, without: &Script) {
    let p = judge(ctx, with);
    let q = judge(ctx, without);
    if p.end == End::Lost || q.end == End::Lost || !controlled() {
        return;
    }
    ensure!(p.rounds.len() == q.rounds.len(), "with refused input {} rounds are played, without it {}", p.rounds.len(), q.rounds.len());
    for (a, b) in p.rounds.iter().zip(&q.rounds) {
        let (x, y) = ((a.before, a.wager, a.first, &a.swaps, a.second, a.after), (b.before, b.wager, b.first, &b.swaps, b.second, b.after));
        ensure!(
            x == y,
            "refused input changes the round: {} credits, wager {}, {} swap {:?} {}, {} credits; without it {} credits, wager {}, {} swap {:?} {}, {} credits",
            a.before, a.wager, hand_text(&a.first), a.swaps, hand_text(&a.second), a.after,
            b.before, b.wager, hand_text(&b.first), b.swaps, hand_text(&b.second), b.after
        );
    }
    ensure!(p.end == q.end, "refused input changes how the game ends");
}

fn order(k: usize) -> Order { Order { rotate: (k * 7 % 47) as u8, descending: k % 2 == 1, ..Order::default() } }

/// Refused lines before the wager and before the swap of one round, compared
/// with the same round without them.
fn refused(ctx: &mut Ctx, balance: u64, wager: &[String], swap: &[String]) {
    let mut without = Script::new();
    lose_down_to(&mut without, balance);
    let mut with = without.clone();
    let w = balance.min(2).to_string();
    for l in wager {
        with.line(l);
    }
    with.line(&w);
    for l in swap {
        with.line(l);
    }
    with.line("1 4");
    for s in [&mut with, &mut without] {
        s.orders.push(order(balance as usize));
        s.orders.push(order(balance as usize + 1));
        s.orders.push(order(balance as usize + 2));
    }
    without.line(&w);
    without.line("1 4");
    // and one more round
    for s in [&mut with, &mut without] {
        s.line("1");
        s.line("");
    }
    same_game(ctx, &with, &without);
}

/// One line at a prompt, then 'quit' until the game ends.
fn single(ctx: &mut Ctx, balance: u64, at: At, line: &str) {
    let mut s = Script::new();
    lose_down_to(&mut s, balance);
    if at == At::Swap {
        s.line("1");
    }
    s.line(line);
    s.line("quit");
    judge(ctx, &s);
}

fn is_refused(at: At, balance: u64, l: &str) -> bool {
    match at {
        At::Wager => read_wager(l, balance) == Reading::Refuse,
        At::Swap => read_swaps(l) == Reading::Refuse,
    }
}

/// Try all these lines at both prompts.
fn try_all(ctx: &mut Ctx, balance: u64, lines: impl Iterator<Item = String>) {
    let mut refuse = [vec![], vec![]];
    for l in lines {
        for (k, at) in [At::Wager, At::Swap].into_iter().enumerate() {
            if is_refused(at, balance, &l) {
                refuse[k].push(l.clone());
            } else {
                single(ctx, balance, at, &l);
            }
        }
    }
    let n = refuse[0].len().max(refuse[1].len());
    for i in (0..n).step_by(2000) {
        let part = |v: &Vec<String>| v.iter().skip(i).take(2000).cloned().collect::<Vec<_>>();
        refused(ctx, balance, &part(&refuse[0]), &part(&refuse[1]));
    }
}

const MENU: [&str; 30] = [
    "", " ", "0", "1", "2", "3", "4", "5", "6", "7", "-1", "1.0", "1,2", "1 2", "5 4 3 2 1", "1 1", "2 3 2", "1 2 3 4 5 1", "0 1", "1 6", "1 x", "x", "Quit",
    "quit now", "QUIT", "help", "18446744073709551616", "18446744073709551617", "1 2 3 4 5 6", "4294967297",
];

pub fn c23<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let t = env.thorough();
    let mut v = vec![];
    let printable: Vec<char> = (' '..='~').collect();

    let p = printable.clone();
    v.push(family("short-lines", "every line of at most 3 printable characters at both prompts, with 100 credits", 95, move |c, ctx| {
        let a = p[c];
        let two = p.iter().map(|b| format!("{a}{b}"));
        let three = p.iter().flat_map(|b| p.iter().map(move |d| format!("{a}{b}{d}")));
        ctx.note(c as u64);
        try_all(ctx, 100, std::iter::once(a.to_string()).chain(two).chain(three));
    }));

    if t {
        let p = printable.clone();
        v.push(family("four-character-lines", "every line of 4 printable characters at both prompts, with 100 credits", 95 * 95, move |c, ctx| {
            let (a, b) = (p[c / 95], p[c % 95]);
            ctx.note(c as u64);
            try_all(ctx, 100, p.iter().flat_map(|d| p.iter().map(move |e| format!("{a}{b}{d}{e}"))));
        }));
    }
    let balances: &[u64] = if t { &[1, 2, 3, 4, 5, 6, 7, 50, 99] } else { &[1, 2, 3, 4, 5, 6] };
    let p = printable.clone();
    v.push(family("short-lines-low-balance", format!("every line of at most 2 printable characters at both prompts, with {balances:?} credits"), balances.len() * 95, move |c, ctx| {
        let a = p[c % 95];
        ctx.note(c as u64);
        try_all(ctx, balances[c / 95], std::iter::once(a.to_string()).chain(p.iter().map(|b| format!("{a}{b}"))));
    }));

    v.push(family("wagers", "every balance 1..100 x wagers 0..130 and numbers near 2^8, 2^16, 2^31, 2^32, 2^63, 2^64", 100, |c, ctx| {
        let mut lines: Vec<String> = (0..=130u64).map(|n| n.to_string()).collect();
        for b in [8, 16, 31, 32, 63, 64] {
            for d in 0..=6u128 {
                lines.push(((1u128 << b) + d).to_string());
                lines.push(((1u128 << b) - d).to_string());
            }
        }
        ctx.note(c as u64 + 1);
        try_all(ctx, c as u64 + 1, lines.into_iter());
    }));

    v.push(family("number-lists", "every list of at most 6 of the numbers 0..6 at the swap prompt (and the wager prompt)", 49, |c, ctx| {
        let mut lines = vec![];
        for n in 2..=6u32 {
            for k in 0..7usize.pow(n - 2) {
                let mut k = k;
                let mut l = vec![c / 7, c % 7];
                for _ in 2..n {
                    l.push(k % 7);
                    k /= 7;
                }
                lines.push(l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
        }
        ctx.note(c as u64);
        try_all(ctx, 100, lines.into_iter());
    }));

    v.push(family("long-number-lists", "lists of 7 to 300 numbers, with and without repeats, and all ways to repeat one of up to 5 numbers", 1, |_, ctx| {
        let mut lines = vec![];
        for n in 7..=300usize {
            for f in [|i: usize| i % 5 + 1, |i: usize| i + 1, |_: usize| 1, |i: usize| 5 - i % 5, |i: usize| i] {
                lines.push((0..n).map(|i| f(i).to_string()).collect::<Vec<_>>().join(" "));
            }
        }
        for big in ["6", "10", "11", "12", "15", "21", "51", "55", "256", "257", "261", "65537", "4294967297", "18446744073709551617", "-1", "1-5", "1,", "one"] {
            for pos in 0..4 {
                let mut l = vec!["2", "4", "5"];
                l.insert(pos, big);
                lines.push(l.join(" "));
            }
        }
        ctx.note(0);
        try_all(ctx, 100, lines.into_iter());
    }));

    v.push(family("spacing", "lists of 0..5 numbers with spaces, tabs and other white space before, between and after", 6, |c, ctx| {
        let numbers = ["2", "5", "1", "4", "3"];
        let mut lines = vec![];
        for ws in [" ", "  ", "\t", " \t ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}"] {
            for lead in ["", ws] {
                for trail in ["", ws] {
                    lines.push(format!("{lead}{}{trail}", numbers[..c].join(ws)));
                }
            }
            lines.push(format!("{}{ws}1", numbers[..c].join(ws)));
        }
        lines.sort();
        lines.dedup();
        ctx.note(c as u64);
        try_all(ctx, 100, lines.into_iter());
    }));

    let top: u32 = 0x11_0000;
    v.push(family("characters", "every Unicode character by itself and next to a valid number", (top as usize).div_ceil(1024), move |c, ctx| {
        let mut lines = vec![];
        for u in c as u32 * 1024..(c as u32 + 1) * 1024 {
            // line ends, and the backspace the line editor itself acts on
            if [8, 10, 13].contains(&u) {
                continue;
            }
            if let Some(x) = char::from_u32(u) {
                lines.push(x.to_string());
                if !x.is_ascii_digit() {
                    lines.push(format!("{x}3"));
                    lines.push(format!("3{x}"));
                }
            }
        }
        ctx.note(c as u64);
        try_all(ctx, 100, lines.into_iter());
    }));

    v.push(family("long-lines", "lines of 2^4..2^20 characters: digits, letters, spaces, non-ASCII", 17, |c, ctx| {
        let n = 1usize << (c + 4);
        ctx.note(n as u64);
        let lines: Vec<String> = ["9", "0", "1", "a", "é", "-", "1 ", "7 ", "x "].iter().map(|s| s.repeat(n / s.len())).collect();
        try_all(ctx, 100, lines.into_iter());
        single(ctx, 100, At::Swap, &" ".repeat(n));
        single(ctx, 100, At::Wager, &" ".repeat(n));
        single(ctx, 100, At::Swap, &format!("1{}2", " ".repeat(n)));
    }));

    // histories over the menu, with rounds in between whenever one is accepted
    let n = if t { 4 } else { 3 };
    for (name, at) in [("wager-histories", At::Wager), ("swap-histories", At::Swap)] {
        let seq = all_sequences(MENU.len(), n);
        let ps = pieces(&seq, 300, n);
        v.push(family(
            name,
            format!("all sequences of {n} lines of a menu of {} at the {} prompt", MENU.len(), if at == At::Wager { "wager" } else { "swap" }),
            ps.len(),
            move |c, ctx| {
                let (mut with, mut without) = (Script::new(), Script::new());
                fund(&mut with, 310);
                fund(&mut without, 310);
                let mut k = 0;
                if at == At::Swap {
                    with.line("1");
                    without.line("1");
                }
                for &m in &ps[c] {
                    let l = MENU[m];
                    with.line(l);
                    if is_refused(at, 100, l) {
                        continue;
                    }
                    without.line(l);
                    k += 1;
                    for s in [&mut with, &mut without] {
                        s.orders.push(order(k));
                        match at {
                            At::Wager => s.line(if k % 3 == 0 { "" } else { "2 5" }),
                            At::Swap => s.line("1"),
                        }
                    }
                }
                ctx.note(c as u64);
                same_game(ctx, &with, &without);
            },
        ));
    }

    v.push(family("leaving", "after 0..3 rounds, at either prompt, after 0..3 refused lines: quit or end of input, the last line ended or not", 4 * 2 * 4 * 2, |c, ctx| {
        let (rounds, at, bad, how) = (c / 16, [At::Wager, At::Swap][c / 8 % 2], c / 2 % 4, c % 2);
        for swap in ["", "3", "1 2 3 4 5"] {
            for trail in [false, true] {
                let mut s = Script::new();
                for _ in 0..rounds {
                    s.line("1");
                    s.line(swap);
                }
                if at == At::Swap {
                    s.line("2");
                }
                for k in 0..bad {
                    s.line(["x", "99", "1 1"][k]);
                }
                if how == 0 {
                    s.line("quit");
                    if trail {
                        // nobody reads on
                        for l in ["1", "", "5", "1 2", "quit"] {
                            s.line(l);
                        }
                    }
                } else if trail && s.input.ends_with('\n') {
                    s.input.pop();
                }
                ctx.note(c as u64);
                let p = judge(ctx, &s);
                if p.end != End::Lost && p.rounds.len() != rounds {
                    // an unended empty line is no line
                    if !(how == 1 && trail && swap.is_empty() && bad == 0) {
                        fail(format!("{rounds} rounds were scripted, {} were played", p.rounds.len()));
                    }
                }
            }
        }
    }));
    v
}
