//! Running the example programs: one forked process per session, with scripted
//! input, captured output and controlled shuffles.
//!
//! Sessions are forked from helper processes that are forked from this program
//! before it has any threads.

use std::{
    io::{Read, Write},
    os::{
        fd::{AsRawFd, FromRawFd, OwnedFd},
        unix::net::UnixStream,
    },
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::SeqCst},
        Mutex, OnceLock,
    },
};

use mc::{engine::engine_error, refm};
use poker::Card;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Program {
    Game,
    Repl,
}

/// How the n-th shuffle of cards of a session comes out: the wanted cards that
/// are there first, then the rest in canonical order, rotated.
#[derive(Clone, Debug, Default)]
pub struct Order {
    pub front: Vec<u8>,
    pub rotate: u8,
    pub descending: bool,
}

impl Order {
    pub fn front(ids: &[usize]) -> Order { Order { front: ids.iter().map(|&i| i as u8).collect(), ..Order::default() } }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub program: Program,
    pub input: Vec<u8>,
    pub orders: Vec<Order>,
    pub color: bool,
    pub dealing: Dealing,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exit {
    Normal,
    Panic,
    Code(i32),
    Signal(i32),
}

#[derive(Debug)]
pub struct Outcome {
    pub exit: Exit,
    pub out: String,
    pub err: String,
    /// for every shuffle of cards: how many there were, and which
    pub shuffles: Vec<(usize, u64)>,
}

const MAX_SHUFFLES: usize = 200_000;
const SECONDS: u32 = 40;
const OUTPUT: u64 = 96 << 20;

// ---------------------------------------------------------------- shuffles

struct Shared {
    used: usize,
    log: [(u32, u64); MAX_SHUFFLES],
}

/// Where the game deals from: the end of the deck, and after how many shuffles
/// that do not matter.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Dealing {
    pub back: bool,
    pub skip: usize,
}

/// Cards are dealt from the end of the deck: the first of an order lies last.
static BACK: AtomicBool = AtomicBool::new(false);
static SKIP: AtomicUsize = AtomicUsize::new(0);

static ORDERS: OnceLock<Vec<Order>> = OnceLock::new();
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

fn id_of(c: Card) -> usize {
    let r = refm::RANKS.iter().position(|&r| r == c.rank()).unwrap();
    r * 4 + refm::SUITS.iter().position(|&s| s == c.suit()).unwrap()
}

/// Called from inside `shuffle`.
fn arrange(p: *mut u8, n: usize, size: usize) -> bool {
    if size != std::mem::size_of::<Card>() || n < 20 {
        return false;
    }
    let known: Vec<[u8; std::mem::size_of::<Card>()]> = refm::deck().iter().map(|&c| unsafe { std::mem::transmute(c) }).collect();
    let bytes = unsafe { std::slice::from_raw_parts(p, n * size) };
    if !bytes.chunks(size).all(|b| known.iter().any(|k| k == b)) {
        return false;
    }
    let cards = unsafe { std::slice::from_raw_parts_mut(p as *mut Card, n) };
    let shared = unsafe { &mut *SHARED.load(SeqCst) };
    let k = shared.used;
    let default = Order::default();
    let order = k.checked_sub(SKIP.load(SeqCst)).and_then(|k| ORDERS.get()?.get(k)).unwrap_or(&default);
    let mut left: Vec<usize> = cards.iter().map(|&c| id_of(c)).collect();
    if k < MAX_SHUFFLES {
        shared.log[k] = (n as u32, left.iter().fold(0, |m, &i| m | 1 << i));
        shared.used += 1;
    }
    left.sort();
    if order.descending {
        left.reverse();
    }
    let mut out = vec![];
    // a card that is there more than once shows up at once
    for w in left.windows(2) {
        if w[0] == w[1] && !out.contains(&w[0]) {
            out.push(w[0]);
        }
    }
    let twice = out.clone();
    out.extend(twice);
    out.extend(order.front.iter().map(|&i| i as usize).filter(|i| left.contains(i)));
    for &i in &out {
        if let Some(at) = left.iter().position(|&x| x == i) {
            left.remove(at);
        }
    }
    if !left.is_empty() {
        let r = order.rotate as usize % left.len();
        left.rotate_left(r);
    }
    out.extend(left);
    if BACK.load(SeqCst) {
        out.reverse();
    }
    for (c, i) in cards.iter_mut().zip(out) {
        *c = refm::card(i);
    }
    true
}

// ---------------------------------------------------------------- helpers

fn put(b: &mut Vec<u8>, v: &[u8]) {
    b.extend((v.len() as u32).to_le_bytes());
    b.extend(v);
}

fn get<'a>(b: &mut &'a [u8]) -> &'a [u8] {
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    let r = &b[4..4 + n];
    *b = &b[4 + n..];
    r
}

fn send(s: &mut UnixStream, b: &[u8]) -> std::io::Result<()> {
    s.write_all(&(b.len() as u64).to_le_bytes())?;
    s.write_all(b)
}

fn receive(s: &mut UnixStream) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    s.read_exact(&mut n)?;
    let mut b = vec![0; u64::from_le_bytes(n) as usize];
    s.read_exact(&mut b)?;
    Ok(b)
}

fn encode(s: &Spec, typed: bool) -> Vec<u8> {
    let mut b = vec![];
    put(&mut b, &[s.program as u8, s.color as u8, s.dealing.back as u8, s.dealing.skip as u8, typed as u8]);
    put(&mut b, &s.input);
    for o in &s.orders {
        put(&mut b, &[o.rotate, o.descending as u8]);
        put(&mut b, &o.front);
    }
    b
}

fn memory_file(content: &[u8]) -> OwnedFd {
    unsafe {
        let fd = libc::memfd_create(c"session".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create");
        let mut f = std::fs::File::from_raw_fd(fd);
        f.write_all(content).unwrap();
        libc::lseek(fd, 0, libc::SEEK_SET);
        f.into()
    }
}

fn content(f: OwnedFd) -> Vec<u8> {
    let mut f = std::fs::File::from(f);
    let mut b = vec![];
    unsafe { libc::lseek(f.as_raw_fd(), 0, libc::SEEK_SET) };
    f.read_to_end(&mut b).unwrap();
    b
}

fn helper(mut sock: UnixStream) -> ! {
    let shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Shared)
    };
    SHARED.store(shared, SeqCst);
    rand::verif::set(arrange);
    loop {
        let Ok(req) = receive(&mut sock) else { unsafe { libc::_exit(0) } };
        let mut b = req.as_slice();
        let head = get(&mut b);
        let (program, color, typed) = (head[0], head[1] != 0, head[4] != 0);
        BACK.store(head[2] != 0, SeqCst);
        SKIP.store(head[3] as usize, SeqCst);
        let input = get(&mut b);
        let mut orders = vec![];
        while !b.is_empty() {
            let h = get(&mut b);
            orders.push(Order { front: get(&mut b).to_vec(), rotate: h[0], descending: h[1] != 0 });
        }
        shared.used = 0;
        let terminal = if typed { terminal() } else { None };
        if typed && terminal.is_none() {
            if send(&mut sock, b"").is_err() {
                unsafe { libc::_exit(0) }
            }
            continue;
        }
        let (fin, fout, ferr) = (memory_file(if typed { b"" } else { input }), memory_file(b""), memory_file(b""));
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                let (fin, fout) = match &terminal {
                    Some((_, t)) => (t.as_raw_fd(), t.as_raw_fd()),
                    None => (fin.as_raw_fd(), fout.as_raw_fd()),
                };
                libc::dup2(fin, 0);
                libc::dup2(fout, 1);
                libc::dup2(ferr.as_raw_fd(), 2);
                let lim = |n| libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_CPU, &lim(SECONDS as u64));
                libc::setrlimit(libc::RLIMIT_FSIZE, &lim(OUTPUT));
                libc::alarm(SECONDS * 2);
            }
            std::env::set_var("TERM", "xterm");
            std::env::remove_var("NO_COLOR");
            if color {
                std::env::set_var("CLICOLOR_FORCE", "1");
            } else {
                std::env::remove_var("CLICOLOR_FORCE");
            }
            let _ = ORDERS.set(orders);
            let r = catch_unwind(AssertUnwindSafe(|| if program == 0 { jb::verif_entry() } else { repl::verif_entry() }));
            let _ = std::io::stdout().flush();
            let code = match r {
                Err(_) => 101,
                Ok(true) => 0,
                Ok(false) => 1,
            };
            unsafe { libc::_exit(code) }
        }
        drop(fin);
        let mut status = 0;
        let out = match terminal {
            Some((m, t)) => type_in(pid, m, t, input, &mut status),
            None => {
                unsafe { libc::waitpid(pid, &mut status, 0) };
                content(fout)
            }
        };
        let mut resp = vec![];
        put(&mut resp, &status.to_le_bytes());
        put(&mut resp, &out);
        put(&mut resp, &content(ferr));
        for (n, m) in &shared.log[..shared.used.min(MAX_SHUFFLES)] {
            resp.extend(n.to_le_bytes());
            resp.extend(m.to_le_bytes());
        }
        if send(&mut sock, &resp).is_err() {
            unsafe { libc::_exit(0) }
        }
    }
}

// ---------------------------------------------------------------- terminals

/// A terminal of 500 columns: the user's end and the program's.
fn terminal() -> Option<(OwnedFd, OwnedFd)> {
    let (mut m, mut t) = (-1, -1);
    let size = libc::winsize { ws_row: 50, ws_col: 500, ws_xpixel: 0, ws_ypixel: 0 };
    unsafe {
        if libc::openpty(&mut m, &mut t, std::ptr::null_mut(), std::ptr::null_mut(), &size as *const _ as *mut _) != 0 {
            return None;
        }
        for fd in [m, t] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        Some((OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(t)))
    }
}

/// Types key after key, each when the program has taken all before and sleeps,
/// waiting for more. What comes out after each is kept apart.
fn type_in(pid: i32, m: OwnedFd, t: OwnedFd, keys: &[u8], status: &mut i32) -> Vec<u8> {
    let mut keys = keys;
    let mut all = vec![];
    let start = std::time::Instant::now();
    let (stat, mut buf) = (format!("/proc/{pid}/status"), vec![0u8; 1 << 16]);
    // how often it had gone to sleep when the last key was typed: until it does
    // so again it has not seen that key
    let mut slept = 0;
    let field = |s: &str, k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string())).unwrap_or_default();
    loop {
        let mut chunk = vec![];
        let mut calm = 0;
        let ended = loop {
            let n = unsafe { libc::read(m.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len()) };
            if n > 0 {
                chunk.extend(&buf[..n as usize]);
                calm = 0;
                continue;
            }
            if unsafe { libc::waitpid(pid, status, libc::WNOHANG) } == pid {
                // what it said last
                loop {
                    let n = unsafe { libc::read(m.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len()) };
                    if n <= 0 {
                        break;
                    }
                    chunk.extend(&buf[..n as usize]);
                }
                break true;
            }
            let waits = unsafe {
                let (mut left, mut io) = (0, std::mem::zeroed::<libc::termios>());
                libc::ioctl(t.as_raw_fd(), libc::FIONREAD, &mut left);
                libc::tcgetattr(t.as_raw_fd(), &mut io);
                left == 0 && io.c_lflag & libc::ICANON == 0
            };
            let now = if waits { std::fs::read_to_string(&stat).unwrap_or_default() } else { String::new() };
            let times: u64 = field(&now, "voluntary_ctxt_switches:").parse().unwrap_or(0);
            let waits = waits && times > slept && field(&now, "State:").starts_with('S');
            calm = if waits { calm + 1 } else { 0 };
            if calm >= 3 {
                slept = times;
                break false;
            }
            if start.elapsed().as_secs() > SECONDS as u64 {
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
            if calm == 0 {
                std::thread::yield_now();
            }
        };
        put(&mut all, &chunk);
        if ended {
            return all;
        }
        if keys.is_empty() {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, status, 0);
            }
            *status = 0;
            put(&mut all, b"\0running");
            return all;
        }
        let k = get(&mut keys);
        unsafe { libc::write(m.as_raw_fd(), k.as_ptr() as *const _, k.len()) };
    }
}

/// What a program said at a terminal.
pub struct Typed {
    /// before the first key, and after each that was typed
    pub chunks: Vec<String>,
    /// None: it waits for more
    pub exit: Option<Exit>,
    pub err: String,
}

/// None: no terminals here.
pub fn run_typed(spec: &Spec, keys: &[&str]) -> Option<Typed> {
    let mut input = vec![];
    for k in keys {
        put(&mut input, k.as_bytes());
    }
    let resp = exchange(&encode(&Spec { input, ..spec.clone() }, true));
    if resp.is_empty() {
        return None;
    }
    let mut b = resp.as_slice();
    let exit = exit(i32::from_le_bytes(get(&mut b).try_into().unwrap()));
    let mut out = get(&mut b);
    let err = String::from_utf8_lossy(get(&mut b)).into_owned();
    let mut chunks = vec![];
    while !out.is_empty() {
        chunks.push(plain(&String::from_utf8_lossy(get(&mut out))).replace(['\r', '\u{7}'], ""));
    }
    let running = chunks.last().is_some_and(|c| c == "\0running");
    if running {
        chunks.pop();
    }
    Some(Typed { chunks, exit: (!running).then_some(exit), err })
}

static POOL: OnceLock<Mutex<Vec<UnixStream>>> = OnceLock::new();

/// Must be called while this process has a single thread.
pub fn start_helpers() {
    POOL.get_or_init(|| {
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) + 1;
        let mut v: Vec<UnixStream> = vec![];
        for _ in 0..n {
            let (a, b) = UnixStream::pair().unwrap();
            match unsafe { libc::fork() } {
                0 => {
                    // the other ends must not stay open here
                    v.clear();
                    drop(a);
                    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                    helper(b)
                }
                p => assert!(p > 0, "fork"),
            }
            v.push(a);
        }
        Mutex::new(v)
    });
}

fn exchange(req: &[u8]) -> Vec<u8> {
    let pool = POOL.get().unwrap();
    let mut sock = loop {
        match pool.lock().unwrap().pop() {
            Some(s) => break s,
            None => engine_error("no helper process left".into()),
        }
    };
    let r = send(&mut sock, req).and_then(|_| receive(&mut sock));
    let resp = match r {
        Ok(r) => r,
        Err(e) => engine_error(format!("helper process: {e}")),
    };
    pool.lock().unwrap().push(sock);
    resp
}

fn exit(status: i32) -> Exit {
    if libc::WIFSIGNALED(status) {
        Exit::Signal(libc::WTERMSIG(status))
    } else {
        match libc::WEXITSTATUS(status) {
            0 => Exit::Normal,
            101 => Exit::Panic,
            c => Exit::Code(c),
        }
    }
}

pub fn run(spec: &Spec) -> Outcome {
    let resp = exchange(&encode(spec, false));
    let mut b = resp.as_slice();
    let exit = exit(i32::from_le_bytes(get(&mut b).try_into().unwrap()));
    let out = String::from_utf8_lossy(get(&mut b)).into_owned();
    let err = String::from_utf8_lossy(get(&mut b)).into_owned();
    let shuffles = b
        .chunks(12)
        .map(|c| (u32::from_le_bytes(c[..4].try_into().unwrap()) as usize, u64::from_le_bytes(c[4..].try_into().unwrap())))
        .collect();
    Outcome { exit, out, err, shuffles }
}

/// Without terminal control sequences.
pub fn plain(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if ('@'..='~').contains(&c) {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
