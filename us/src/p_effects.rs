//! C26: effects. A child process gives up every system call but those for
//! memory, threads, locks and randomness, and then uses the crate.

use std::{
    ffi::{c_char, c_int, c_long, c_void, CStr},
    hint::black_box as see,
    io::Write as _,
    panic::{catch_unwind, set_hook, take_hook},
    sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::Relaxed},
};

use mc::{
    engine::{engine_error, family, Ctx, Family},
    ensure,
    env::Env,
    refm,
};
use poker::{box_cards, cards, deck, Card, Evaluator};

use crate::{
    kid::{kid, Kid},
    ops::{self, op, User, HEAVY, N, NAMES},
};

static WATCHED: AtomicBool = AtomicBool::new(false);
static KID: AtomicPtr<Kid> = AtomicPtr::new(std::ptr::null_mut());
static NO_ENV: AtomicU64 = AtomicU64::new(0);
static HOOKED: AtomicU64 = AtomicU64::new(0);

/// Text without allocating.
struct Line([u8; 400], usize);
impl std::fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}

fn effect(what: std::fmt::Arguments) -> ! {
    use std::fmt::Write as _;
    let mut l = Line([0; 400], 0);
    let _ = l.write_fmt(what);
    unsafe {
        (*KID.load(Relaxed)).report(2, std::str::from_utf8_unchecked(&l.0[..l.1]));
        libc::syscall(libc::SYS_exit_group, 0);
    }
    loop {}
}

// ---------------------------------------------------------------- seen in the process

extern "C" {
    static mut environ: *mut *mut c_char;
}

/// std asks this for environment variables.
#[no_mangle]
unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name).to_bytes();
    if WATCHED.load(Relaxed) {
        // the runtime's own: the stack size of new threads, backtraces
        if !name.starts_with(b"RUST_") {
            effect(format_args!("the environment variable {:?} is read", std::str::from_utf8(name).unwrap_or("?")));
        }
        return std::ptr::null_mut();
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let b = CStr::from_ptr(*p).to_bytes();
        if b.len() > name.len() && b.starts_with(name) && b[name.len()] == b'=' {
            return (*p).add(name.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut libc::timespec) -> c_int {
    if WATCHED.load(Relaxed) {
        effect(format_args!("the clock is read"));
    }
    libc::syscall(libc::SYS_clock_gettime, clock as c_long, t) as c_int
}

unsafe extern "C" fn on_segv(_: c_int, info: *mut libc::siginfo_t, _: *mut c_void) {
    let at = (*info).si_addr() as u64;
    let page = NO_ENV.load(Relaxed);
    if at >= page && at < page + 4096 {
        effect(format_args!("the environment is read or changed"));
    }
    libc::signal(libc::SIGSEGV, libc::SIG_DFL);
}

unsafe fn quoted(p: i64, n: usize) -> Line {
    use std::fmt::Write as _;
    let mut l = Line([0; 400], 0);
    for i in 0..n.min(120) {
        let b = *(p as *const u8).add(i);
        if n == usize::MAX && b == 0 {
            break;
        }
        let _ = write!(l, "{}", b.escape_ascii());
    }
    l
}

unsafe extern "C" fn on_sys(_: c_int, info: *mut libc::siginfo_t, uc: *mut c_void) {
    // si_signo, si_errno, si_code, padding, call address, number
    let nr = *((info as *const u8).add(24) as *const i32) as i64;
    let regs = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let (a, b, c) = (regs[libc::REG_RDI as usize], regs[libc::REG_RSI as usize], regs[libc::REG_RDX as usize]);
    match nr {
        libc::SYS_write => {
            let l = quoted(b, c as usize);
            effect(format_args!("\"{}\" is written to file descriptor {a}", std::str::from_utf8_unchecked(&l.0[..l.1])))
        }
        libc::SYS_open | libc::SYS_openat => {
            let l = quoted(if nr == libc::SYS_open { a } else { b }, usize::MAX);
            let s = std::str::from_utf8_unchecked(&l.0[..l.1]);
            // what std looks at to count processors
            if s.starts_with("/proc/") || s.starts_with("/sys/") {
                regs[libc::REG_RAX as usize] = -(libc::ENOENT as i64);
                return;
            }
            effect(format_args!("the file {s} is opened"))
        }
        _ => effect(format_args!("system call {nr} is made with {a:#x}, {b:#x}, {c:#x}")),
    }
}

const HARMLESS: [c_long; 31] = [
    libc::SYS_mmap, libc::SYS_mprotect, libc::SYS_munmap, libc::SYS_brk, libc::SYS_mremap, libc::SYS_madvise, libc::SYS_futex,
    libc::SYS_getrandom, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigreturn, libc::SYS_sigaltstack, libc::SYS_sched_yield,
    libc::SYS_sched_getaffinity, libc::SYS_getpid, libc::SYS_gettid, libc::SYS_prctl, libc::SYS_arch_prctl,
    libc::SYS_set_robust_list, libc::SYS_rseq, libc::SYS_set_tid_address, libc::SYS_prlimit64, libc::SYS_exit,
    libc::SYS_exit_group, libc::SYS_getdents64, libc::SYS_lseek, libc::SYS_sysinfo, libc::SYS_get_robust_list,
    libc::SYS_getcpu, libc::SYS_mlock, libc::SYS_membarrier, libc::SYS_futex_waitv,
];

unsafe fn give_up_system_calls() {
    const LOAD: u16 = 0x20;
    const IF_EQ: u16 = 0x15;
    const IF_ANY: u16 = 0x45;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    const ERRNO: u32 = 0x0005_0000;
    let f = |code, jt, jf, k| libc::sock_filter { code, jt, jf, k };
    let mut p = vec![f(LOAD, 0, 0, 0)];
    for nr in HARMLESS {
        p.push(f(IF_EQ, 0, 1, nr as u32));
        p.push(f(RET, 0, 0, ALLOW));
    }
    // clone3 hides its flags: without it, clone is used
    p.push(f(IF_EQ, 0, 1, libc::SYS_clone3 as u32));
    p.push(f(RET, 0, 0, ERRNO | libc::ENOSYS as u32));
    // threads, but no processes
    p.push(f(IF_EQ, 0, 3, libc::SYS_clone as u32));
    p.push(f(LOAD, 0, 0, 16));
    p.push(f(IF_ANY, 0, 1, libc::CLONE_THREAD as u32));
    p.push(f(RET, 0, 0, ALLOW));
    p.push(f(RET, 0, 0, TRAP));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const _) != 0 {
        engine_error("cannot give up system calls".into());
    }
}

fn threads(dir: c_int) -> usize {
    unsafe {
        let mut buf = [0u8; 4096];
        let mut n = 0;
        libc::lseek(dir, 0, libc::SEEK_SET);
        loop {
            let r = libc::syscall(libc::SYS_getdents64, dir as c_long, buf.as_mut_ptr(), buf.len());
            if r <= 0 {
                return n - 2;
            }
            let mut at = 0;
            while at < r as usize {
                n += 1;
                at += u16::from_le_bytes([buf[at + 16], buf[at + 17]]) as usize;
            }
        }
    }
}

/// Run `f` with nothing left to have an effect on.
fn watched(k: &'static Kid, f: impl FnOnce()) {
    unsafe {
        KID.store(k as *const Kid as *mut Kid, Relaxed);
        let page = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        NO_ENV.store(page as u64, Relaxed);
        let dir = libc::open(c"/proc/self/task".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY);
        if page == libc::MAP_FAILED || dir < 0 || threads(dir) != 1 {
            engine_error("cannot watch".into());
        }
        for (sig, h) in [(libc::SIGSEGV, on_segv as unsafe extern "C" fn(_, _, _) as usize), (libc::SIGSYS, on_sys as unsafe extern "C" fn(_, _, _) as usize)] {
            let mut s: libc::sigaction = std::mem::zeroed();
            s.sa_sigaction = h;
            s.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &s, std::ptr::null_mut());
        }
        let before = take_hook();
        set_hook(Box::new(move |i| {
            HOOKED.fetch_add(1, Relaxed);
            before(i)
        }));
        environ = page as *mut *mut c_char;
        give_up_system_calls();
        WATCHED.store(true, Relaxed);
        f();
        // what was printed and not yet written
        let _ = std::io::stdout().flush();
        let n = HOOKED.load(Relaxed);
        ensure!(n == 0, "{n} panics were reported to the program's panic hook");
        let _ = catch_unwind(|| panic!("probe"));
        ensure!(HOOKED.load(Relaxed) == 1, "the program's panic hook has been replaced");
        let mut tries = 0u64;
        while threads(dir) != 1 {
            tries += 1;
            ensure!(tries < 5_000, "{} threads are left running", threads(dir) - 1);
            let (word, ms) = (0u32, libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 });
            libc::syscall(libc::SYS_futex, &word, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0, &ms);
        }
    }
}

// ---------------------------------------------------------------- what is explored

fn told(seq: &[usize]) -> String { seq.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(", then ") }
fn digits(n: u64) -> String { told(&[(n & 255) as usize, (n >> 8 & 255) as usize, (n >> 16 & 255) as usize].into_iter().filter(|&i| i > 0).map(|i| i - 1).collect::<Vec<_>>()) }
fn note(seq: &[usize]) -> u64 { seq.iter().rev().fold(0, |n, &i| n << 8 | (i as u64 + 1)) }
fn item(n: u64) -> String {
    let x = n & 0xFFFF_FFFF;
    match n >> 32 & 0xFF {
        0 => format!("evaluating and displaying the hand {}", refm::mask_text((0..5).map(|i| 1u64 << (x >> (6 * i) & 63)).sum::<u64>())),
        1 => format!("parsing {:?} and displaying the outcome", string(x)),
        2 => format!("parsing strings with the character U+{x:04X}"),
        3 => format!("evaluating a list of {} cards, of which those at {} and {} are the same (if different numbers)", x & 255, x >> 8 & 255, x >> 16 & 255),
        4 => format!("comparing and displaying results {} and {}", x & 0xFFFF, x >> 16),
        5 => format!("shuffling with seed {x}"),
        6 => format!("comparing, displaying and joining the cards {} and {}", refm::text((x & 63) as usize % 52), refm::text((x >> 8 & 63) as usize % 52)),
        7 => format!("evaluating the {x}th set of cards"),
        8 => format!("parsing a batch, {x}"),
        _ => format!("evaluating, parsing, joining and sorting {x} cards or characters"),
    }
}

const LETTERS: [char; 26] = ['A', 's', '2', 'c', 'T', 'K', 'd', 'h', 'x', 'a', 'S', '1', '0', ' ', '\n', '\'', '"', '\\', '{', '}', '\u{e9}', '\u{2660}', '\u{1F0A1}', '\0', '\u{301}', '\u{10FFFF}'];

fn string(mut x: u64) -> String {
    let mut s = String::new();
    while x > 0 {
        x -= 1;
        s.push(LETTERS[(x % 26) as usize]);
        x /= 26;
    }
    s
}

fn parse(s: &str) {
    match s.parse::<Card>() {
        Ok(c) => see(c.to_string().len()),
        Err(e) => see(format!("{e:?}").len() + e.to_string().len()),
    };
}

fn wide(env: &Env, c: usize, k: &Kid) {
    let ev = Evaluator::new();
    let deck = refm::deck();
    let did = |n: u64| {
        k.note(n);
        k.step(1);
        k.state();
    };
    match c {
        0..=47 => mc::env::subsets(5, c + 1, &mut [c, 0, 0, 0, 0], 1, &mut |ids| {
            did(ids.iter().enumerate().map(|(j, &i)| (refm::bit(i).trailing_zeros() as u64) << (6 * j)).sum());
            see(ev.evaluate([deck[ids[4]], deck[ids[0]], deck[ids[3]], deck[ids[1]], deck[ids[2]]]).map(|e| e.to_string().len()).is_ok());
        }),
        48..=55 => {
            let n = 1 + 26 + 26 * 26 + 26 * 26 * 26 + if env.thorough() { 26 * 26 * 26 * 26 } else { 0 };
            for x in n * (c as u64 - 48) / 8..n * (c as u64 - 47) / 8 {
                did(1 << 32 | x);
                parse(&string(x));
            }
        }
        56..=71 => {
            for x in 0x110000 * (c as u32 - 56) / 16..0x110000 * (c as u32 - 55) / 16 {
                if let Some(ch) = char::from_u32(x) {
                    did(2 << 32 | x as u64);
                    for s in [format!("{ch}s"), format!("A{ch}"), ch.to_string()] {
                        parse(&s);
                    }
                    see(Card::try_from_chars(ch, ch).is_ok());
                }
            }
        }
        72 => {
            for n in 0..=30usize {
                let l: Vec<Card> = (0..n).map(|i| deck[i * 5 % 52]).collect();
                for i in 0..n.max(1) {
                    for j in 0..=i {
                        if i == j && i > 0 {
                            continue;
                        }
                        did(3 << 32 | (n | i << 8 | j << 16) as u64);
                        let mut l = l.clone();
                        if i != j {
                            l[i] = l[j];
                        }
                        see(ev.evaluate(&l).map_err(|e| format!("{e}{e:?}")).map(|e| e.to_string()).is_ok());
                    }
                }
            }
        }
        73 => {
            let reps = env.reps();
            for (i, a) in reps.iter().enumerate() {
                for j in [i, 0, 1, reps.len() - 1, i / 2, (i * 7919) % reps.len()] {
                    did(4 << 32 | (i | j << 16) as u64);
                    let b = &reps[j];
                    see((a < b, a.class() < b.class(), a.is_better_than(*b), a.max(b), a.class().max(b.class())));
                }
                see(format!("{a}{a:?}{}{:?}", a.class(), a.class()));
            }
        }
        74 => {
            for x in 0..50_000 {
                did(5 << 32 | x);
                see(deck::shuffled_with(&mut <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(x)).len());
                if x % 16 == 0 {
                    see(deck::shuffled().len());
                }
            }
        }
        75 => {
            for x in 0..52 * 52 {
                let (i, j) = (x % 52, x / 52);
                did(6 << 32 | (i | j << 8) as u64);
                let (a, b) = (deck[i], deck[j]);
                see((a < b, a == b, a.max(b), a.rank().cmp(&b.rank()), a.suit() == b.suit()));
                see(format!("{a}{b:?}{:?}{:?}{}{}", a.rank(), b.suit(), a.rank(), b.suit()));
                see(box_cards!([a], [b], [a, b]).len());
                see(cards!(a.rank_suit_string(), b.rank_suit_string()).try_collect::<Vec<_>>().is_ok());
            }
        }
        76 => {
            let words = ["As", "2c", "x", "", "10c", "A\u{1F0A1}"];
            for x in 0..6u64.pow(5) {
                did(8 << 32 | x);
                let l: Vec<&str> = (0..5).map(|i| words[(x / 6u64.pow(i) % 6) as usize]).collect();
                see(Card::parse_to_iter(&l).count());
                see(Card::parse_to_iter(&l).try_collect::<Vec<_>>().is_ok());
                see(cards!(l.join(" ")).try_collect::<Vec<_>>().is_ok());
            }
        }
        77 => {
            for n in ops::sizes() {
                did(9 << 32 | n as u64);
                ops::sized(n, &ev, &deck);
            }
        }
        _ => {
            let n: u64 = if env.thorough() { 8_000_000 } else { 150_000 };
            for x in n * (c as u64 - 78)..n * (c as u64 - 77) {
                did(7 << 32 | x);
                see(ev.evaluate(ops::pick::<6>(&deck, x)).is_ok());
                see(ev.evaluate(ops::pick::<7>(&deck, x)).is_ok());
                if x % 64 == 0 {
                    see(ev.evaluate(ops::pick::<9>(&deck, x)).is_ok());
                    see(ev.evaluate(ops::pick::<14>(&deck, x)).is_ok());
                }
            }
        }
    }
    k.trace();
}

pub fn c26<'a>(env: &'a Env) -> Vec<Family<'a>> {
    let _ = refm::deck();
    let alone = |k: &'static Kid, seq: &[usize]| {
        k.note(note(seq));
        watched(k, || {
            let u = &mut User::new();
            for (i, &o) in seq.iter().enumerate() {
                op(o, u, i as u64);
                k.step(1);
            }
        });
        k.trace();
        k.state();
    };
    vec![
        family("first-uses", format!("every sequence of up to 2 of {N} uses of the crate (3 in thorough), each in a fresh process that has given up every system call but those for memory, threads, locks and randomness"), N * N, move |c, ctx| {
            let (a, b) = (c / N, c % N);
            if b == 0 {
                kid(ctx, digits, |k| alone(k, &[a]));
            }
            kid(ctx, digits, |k| alone(k, &[a, b]));
            if env.thorough() {
                for x in 0..N {
                    kid(ctx, digits, |k| alone(k, &[a, b, x]));
                }
            }
        }).describe(digits),
        family("long-histories", format!("every sequence of 3 of {N} uses after each other in one such process per first two, over a thousand different inputs"), N * N, move |c, ctx: &mut Ctx| kid(ctx, digits, |k| {
            let (a, b) = (c / N, c % N);
            watched(k, || {
                let u = &mut User::new();
                for x in 0..N {
                    let seq = [a, b, x];
                    k.note(note(&seq));
                    let reps = if seq.iter().any(|i| HEAVY.contains(i)) { 4 } else { 32 };
                    for j in 0..reps {
                        for o in seq {
                            op(o, u, j + 32 * x as u64);
                        }
                    }
                    k.step(3 * reps);
                    k.state();
                }
            });
            k.trace();
        })).describe(digits),
        family("every-input", "all five-card hands, all strings up to 3 characters over 26, every Unicode character as rank, suit and alone, all lists up to 30 cards with one duplicate pair, all strengths, all pairs of cards, 50,000 seeds, all batches of 5 out of 6 words, everything of sizes 0-300 and around powers of two to 2^16, spread larger hands: in such a process", 86, move |c, ctx| {
            if c == 73 {
                let _ = env.reps();
            }
            kid(ctx, item, |k| watched(k, || wide(env, c, k)))
        }).describe(item),
        family("silence-is-heard", "the watch itself: each of the effects made on purpose is reported", EFFECTS.len(), move |c, ctx| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kid(ctx, |_| "making an effect on purpose".into(), |k| watched(k, || EFFECTS[c].1()))));
            match r {
                Err(p) if p.is::<mc::engine::Violation>() => {
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.transitions += 1;
                }
                Err(p) => std::panic::resume_unwind(p),
                Ok(()) => engine_error(format!("an effect is not seen: {}", EFFECTS[c].0)),
            }
        }),
    ]
}

type Effect = (&'static str, fn());
const EFFECTS: [Effect; 14] = [
    ("print without newline", || print!("x")),
    ("print", || println!("x")),
    ("print an error", || eprint!("x")),
    ("read a variable", || drop(see(std::env::var("POKER")))),
    ("read all variables", || { see(std::env::vars().count()); }),
    ("set a variable", || std::env::set_var("POKER", "1")),
    ("read a file", || drop(see(std::fs::read("/etc/hostname")))),
    ("write a file", || drop(see(std::fs::write("/tmp/verif-us-effect", "x")))),
    ("read the clock", || { see(std::time::Instant::now()); }),
    ("read the date", || { see(std::time::SystemTime::now()); }),
    ("start a process", || drop(see(std::process::Command::new("true").status()))),
    ("replace the panic hook", || set_hook(Box::new(|_| ()))),
    ("panic and recover", || drop(see(catch_unwind(|| panic!("x"))))),
    ("leave a thread", || drop(std::thread::spawn(|| loop { std::thread::park() }))),
];

