//! Everything that is decided through the library API.

use mc::{cli, engine::{self, Family}, ensure, env::{self, Env}, refm};

mod entropy;
mod p_calls;
mod p_cards;
#[cfg(feature = "rand")]
mod p_deck;
mod p_hands;
mod p_lists;
mod p_modes;
mod p_text;

fn families<'a>(id: &str, env: &'a Env) -> Option<(Vec<Family<'a>>, Vec<&'static str>)> {
    Some(match id {
        "C01" => (p_hands::c01(env), vec![]),
        "C02" => (p_hands::c02(env), vec![]),
        "C03" => (p_hands::c03(env), vec!["hands of 9 or more cards are covered by bounded families, not completely (see families)"]),
        "C04" => (p_lists::c04(env), vec![]),
        "C05" => (p_lists::c05(env), vec![]),
        "C07" => (p_hands::c07(env), vec!["hands of 8 or more cards: bounded families only"]),
        "C08" => (p_cards::c08(env), vec![]),
        "C09" => (p_cards::c09(env), vec![]),
        "C10" => (p_cards::c10(env), vec![]),
        "C11" => (p_cards::c11(env), vec![]),
        "C12" => (p_cards::c12(env), vec![]),
        "C17" => (p_cards::c17(env), vec![]),
        #[cfg(feature = "rand")]
        "C13" => (p_deck::c13(env), vec![]),
        "C14" => (p_text::c14(env), vec![]),
        "C15" => (p_text::c15(env), vec![]),
        "C16" => (p_text::c16(env), vec![]),
        "C19" => (p_modes::c19(env), vec![]),
        _ => return None,
    })
}

fn main() { cli::cli(families) }
