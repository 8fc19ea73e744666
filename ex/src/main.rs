//! C21-C24: the example programs.

mod game;
mod p_credits;
mod p_input;
mod p_repl;
mod p_swaps;
mod p_typed;
mod session;

use mc::{
    cli,
    engine::Family,
    env::Env,
};

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> {
    const SCRIPTED: &str = "input is piped, not typed at a terminal; shuffles come out as the harness decides";
    const SHUFFLED: &str = "input is piped, except in the families typed at a terminal; shuffles come out as the harness decides";
    session::start_helpers();
    game::check_sequences(5, 3);
    Some(match id {
        "C21" => (p_credits::c21(env), vec![SCRIPTED]),
        "C22" => (p_swaps::c22(env), vec![SCRIPTED]),
        "C23" => (p_input::c23(env).into_iter().chain(p_typed::game(env)).collect(), vec![SHUFFLED]),
        "C24" => (p_repl::c24(env).into_iter().chain(p_typed::repl(env)).collect(), vec!["input is piped, except in the families typed at a terminal"]),
        _ => return None,
    })
}

fn main() { cli::cli(families) }
