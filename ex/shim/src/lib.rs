//! The real crate, except that a shuffled deck is put into the order the session
//! wants after the real function has shuffled it.
pub use real::*;

pub mod deck {
    pub use real::deck::generate;
    use real::{deck as real_deck, Card};

    pub fn shuffled() -> Vec<Card> {
        let mut v: Vec<Card> = rand::verif::suspended(real_deck::shuffled).to_vec();
        rand::verif::arrange(&mut v);
        v
    }

    pub fn shuffled_with<R: rand::Rng + ?Sized>(rng: &mut R) -> Vec<Card> {
        let mut v: Vec<Card> = rand::verif::suspended(|| real_deck::shuffled_with(rng)).to_vec();
        rand::verif::arrange(&mut v);
        v
    }
}
