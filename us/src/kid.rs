//! Child processes: each explores its part alone, with its memory counted or
//! its system calls watched, and reports through a shared page.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed},
    sync::{Mutex, MutexGuard, PoisonError},
    time::Duration,
};

use mc::engine::{engine_error, fail, judged, Ctx, Verdict};

// ---------------------------------------------------------------- memory

pub struct Counted;

/// Bytes handed out and not given back.
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 { LIVE.load(Relaxed) }

// ---------------------------------------------------------------- children

#[repr(C)]
pub struct Kid {
    note: AtomicU64,
    beat: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    /// 0 exploring, 1 done, 2 violation, 3 the harness is wrong
    end: AtomicU64,
    len: AtomicU64,
    text: [std::cell::UnsafeCell<u8>; 3000],
}
unsafe impl Sync for Kid {}

impl Kid {
    pub fn note(&self, n: u64) {
        self.note.store(n, Relaxed);
        self.beat.fetch_add(1, Relaxed);
    }
    pub fn state(&self) { self.states.fetch_add(1, Relaxed); }
    pub fn step(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    pub fn trace(&self) { self.traces.fetch_add(1, Relaxed); }

    /// Safe within a signal handler.
    pub fn report(&self, end: u64, s: &str) {
        let n = s.len().min(3000);
        for (c, b) in self.text.iter().zip(s.bytes().take(n)) {
            unsafe { *c.get() = b }
        }
        self.len.store(n as u64, Relaxed);
        self.end.store(end, Relaxed);
    }

    fn text(&self) -> String {
        let n = self.len.load(Relaxed) as usize;
        String::from_utf8_lossy(&self.text[..n].iter().map(|c| unsafe { *c.get() }).collect::<Vec<u8>>()).into_owned()
    }
}

/// Held where this process forks or panics: a child must not be born while the
/// panic hook is in use.
static FORK: Mutex<()> = Mutex::new(());
fn alone() -> MutexGuard<'static, ()> { FORK.lock().unwrap_or_else(PoisonError::into_inner) }

/// Run `f` in a child process and take over its verdict and its counts.
pub fn kid(ctx: &mut Ctx, describe: fn(u64) -> String, f: impl FnOnce(&'static Kid)) {
    unsafe {
        let size = std::mem::size_of::<Kid>();
        let page = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if page == libc::MAP_FAILED {
            engine_error("no shared page".into());
        }
        let k: &'static Kid = &*(page as *const Kid);
        let me = libc::getpid();
        let guard = alone();
        let pid = libc::fork();
        if pid < 0 {
            engine_error("cannot fork".into());
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != me {
                libc::_exit(1);
            }
            match judged(|| describe(k.note.load(Relaxed)), || f(k)) {
                Ok(()) => k.end.store(1, Relaxed),
                Err(Verdict::Violation(d)) => k.report(2, &d),
                Err(Verdict::Engine(d)) => k.report(3, &d),
            }
            libc::_exit(0);
        }
        drop(guard);
        let mut status = 0;
        let mut nap = 50;
        loop {
            ctx.note(k.note.load(Relaxed) ^ k.beat.load(Relaxed) << 48);
            match libc::waitpid(pid, &mut status, libc::WNOHANG) {
                0 => {}
                p if p == pid => break,
                _ => engine_error("cannot wait for the child".into()),
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(10_000);
        }
        ctx.states += k.states.load(Relaxed);
        ctx.transitions += k.transitions.load(Relaxed);
        ctx.traces += k.traces.load(Relaxed);
        let note = k.note.load(Relaxed);
        let (end, text) = (k.end.load(Relaxed), k.text());
        libc::munmap(page, size);
        let _guard = alone();
        match end {
            1 => {}
            2 => fail(if text.contains("while ") { text } else { format!("{text} while {}", describe(note)) }),
            3 => engine_error(text),
            _ if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGKILL => fail(format!(
                "the process was ended by signal {} (6: abort, 11: memory fault or stack overflow) while {}",
                libc::WTERMSIG(status),
                describe(note)
            )),
            _ => engine_error(format!("child ended with status {status:#x} while {}", describe(note))),
        }
    }
}
