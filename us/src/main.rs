//! C25, C26, C27: what using the crate costs and does besides giving results.

mod kid;
mod ops;
mod p_effects;
mod p_memory;
mod p_work;

use mc::{cli, engine::Family, env::Env};

#[global_allocator]
static COUNTED: kid::Counted = kid::Counted;

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> {
    Some(match id {
        "C25" => (p_memory::c25(env), vec!["memory is what the global allocator has handed out and not been given back; the crate forbids unsafe code, so it has no other"]),
        "C26" => (p_effects::c26(env), vec!["effects are system calls other than for memory, threads, locks and randomness, the environment, the clock, the panic hook and threads left behind; x86-64 Linux"]),
        "C27" => (p_work::c27(env), vec!["work is machine instructions in user space, as valgrind's callgrind counts them in a program built with optimisation and without debug assertions; the limits are 5 to 100 times what the calls take today"]),
        _ => return None,
    })
}

fn main() { cli::cli(families) }
