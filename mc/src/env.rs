//! Shared, read-only context of a run.

use std::sync::OnceLock;

use poker::{Card, Eval, Evaluator};

use crate::{
    engine::{engine_error, fail},
    refm::{self, Strengths},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    deck: OnceLock<[Card; 52]>,
    strengths: OnceLock<Strengths>,
    evaluator: OnceLock<Evaluator>,
    reps: OnceLock<Vec<Eval>>,
}

impl Env {
    pub fn new(tier: Tier, seed: u64) -> Self {
        Env {
            tier,
            seed,
            deck: OnceLock::new(),
            strengths: OnceLock::new(),
            evaluator: OnceLock::new(),
            reps: OnceLock::new(),
        }
    }

    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }

    pub fn deck(&self) -> &[Card; 52] { self.deck.get_or_init(refm::deck) }

    pub fn strengths(&self) -> &Strengths {
        self.strengths.get_or_init(|| {
            let s = Strengths::new();
            if s.len() != 7462 || s.list.windows(2).any(|w| w[0] >= w[1]) {
                engine_error(format!("reference model has {} strengths", s.len()));
            }
            s
        })
    }

    pub fn evaluator(&self) -> &Evaluator { self.evaluator.get_or_init(Evaluator::new) }

    pub fn cards(&self, ids: &[usize]) -> Vec<Card> { ids.iter().map(|&i| self.deck()[i]).collect() }

    /// The implementation's result for one hand of every strength.
    pub fn reps(&self) -> &[Eval] {
        self.reps.get_or_init(|| {
            self.strengths()
                .rep
                .iter()
                .map(|ids| match self.evaluator().evaluate(self.cards(ids)) {
                    Ok(e) => e,
                    Err(e) => fail(format!("{} is refused: {e:?}", refm::hand_text(ids))),
                })
                .collect()
        })
    }
}

/// Visit every k-element extension of `start` (ascending ids below 52).
pub fn subsets(k: usize, from: usize, ids: &mut [usize], n: usize, f: &mut impl FnMut(&[usize])) {
    if n == k {
        f(&ids[..k]);
        return;
    }
    for i in from..=(52 - (k - n)) {
        ids[n] = i;
        subsets(k, i + 1, ids, n + 1, f);
    }
}

/// The chunks of a walk over k-subsets: the two smallest elements.
pub fn pairs_for(k: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..52 {
        for j in i + 1..52 {
            if 52 - (j + 1) >= k - 2 {
                v.push((i, j));
            }
        }
    }
    v
}

pub fn subsets_in_chunk(k: usize, head: (usize, usize), f: &mut impl FnMut(&[usize])) {
    let mut ids = [0usize; 16];
    ids[0] = head.0;
    ids[1] = head.1;
    subsets(k, head.1 + 1, &mut ids, 2, f);
}

pub fn mask(ids: &[usize]) -> u64 { ids.iter().fold(0, |m, &i| m | refm::bit(i)) }

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// Rearrange in an order that is a fixed function of `key`.
pub fn scramble<T>(v: &mut [T], key: u64) {
    let mut h = splitmix(key);
    for i in (1..v.len()).rev() {
        let j = (h % (i as u64 + 1)) as usize;
        h = splitmix(h);
        v.swap(i, j);
    }
}

/// All permutations of 0..n, identity first.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}
