//! A choice tape: a proptest strategy of plain words from which generators
//! draw all their choices, so that every generator is an ordinary function and
//! every choice shrinks (towards shorter tapes and smaller words).
use proptest::strategy::{BoxedStrategy, NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use std::fmt::Debug;

pub struct Tape<'a> {
    words: &'a [u32],
    at: usize,
}

impl<'a> Tape<'a> {
    pub fn new(words: &'a [u32]) -> Self {
        Tape { words, at: 0 }
    }
    /// Next word; 0 (the simplest choice) once the tape is used up.
    pub fn word(&mut self) -> u32 {
        let w = self.words.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        w
    }
    pub fn u64(&mut self) -> u64 {
        ((self.word() as u64) << 32) | self.word() as u64
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.word() as usize) % n
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + (self.word() as i64) % (hi - lo + 1)
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.word() % den >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn by weight; shrinks to the first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.word() % total;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    /// In [0, 1).
    pub fn unit(&mut self) -> f64 {
        self.word() as f64 / 4294967296.0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
struct Words(usize);

#[derive(Debug)]
struct WordsTree {
    cur: Vec<u32>,
    prev: Option<Vec<u32>>,
    pass: usize,
    pos: usize,
    improved: bool,
}

/// Truncations, block deletions, block zeroings, then single-word reductions.
const PASSES: [(u8, usize); 19] = [
    (4, 0),
    (0, 256),
    (0, 64),
    (0, 16),
    (0, 8),
    (0, 4),
    (0, 2),
    (0, 1),
    (1, 64),
    (1, 8),
    (1, 1),
    (2, 1), // mod 2, 4, 8, ... : small residues
    (2, 2),
    (2, 3),
    (2, 4),
    (5, 1), // halve
    (3, 1), // minus one, for small words
    (3, 2),
    (3, 5),
];

impl WordsTree {
    fn trim(v: &mut Vec<u32>) {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    fn step(&self, op: u8, arg: usize) -> usize {
        match op {
            0 | 1 => arg,
            4 => self.pos.max(1),
            _ => 1,
        }
    }
    fn propose(&mut self) -> Option<Vec<u32>> {
        loop {
            if self.pass >= PASSES.len() {
                if !self.improved {
                    return None;
                }
                self.pass = 0;
                self.pos = 0;
                self.improved = false;
            }
            if self.pos >= self.cur.len() {
                self.pass += 1;
                self.pos = 0;
                continue;
            }
            let (op, arg) = PASSES[self.pass];
            let mut v = self.cur.clone();
            match op {
                0 => {
                    let hi = (self.pos + arg).min(v.len());
                    v.drain(self.pos..hi);
                }
                1 => {
                    let hi = (self.pos + arg).min(v.len());
                    v[self.pos..hi].iter_mut().for_each(|x| *x = 0);
                }
                2 => v[self.pos] %= 1 << (2 * arg),
                4 => v.truncate(self.pos),
                5 => v[self.pos] >>= 1,
                _ if v[self.pos] < 1024 => v[self.pos] = v[self.pos].saturating_sub(arg as u32),
                _ => {}
            }
            Self::trim(&mut v);
            if v == self.cur {
                self.pos += self.step(op, arg);
                continue;
            }
            return Some(v);
        }
    }
}

impl ValueTree for WordsTree {
    type Value = Vec<u32>;
    fn current(&self) -> Vec<u32> {
        self.cur.clone()
    }
    // simplify is called after a failing (kept) candidate, complicate after a
    // passing one.
    fn simplify(&mut self) -> bool {
        if self.prev.take().is_some() {
            self.improved = true; // the last proposal still fails: keep it
        }
        match self.propose() {
            Some(v) => {
                self.prev = Some(std::mem::replace(&mut self.cur, v));
                true
            }
            None => false,
        }
    }
    fn complicate(&mut self) -> bool {
        match self.prev.take() {
            Some(p) => {
                self.cur = p;
                let (op, arg) = PASSES[self.pass];
                self.pos += self.step(op, arg);
                // Propose the next candidate right away.
                match self.propose() {
                    Some(v) => {
                        self.prev = Some(std::mem::replace(&mut self.cur, v));
                        true
                    }
                    None => false,
                }
            }
            None => false,
        }
    }
}

impl Strategy for Words {
    type Tree = WordsTree;
    type Value = Vec<u32>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        use proptest::prelude::Rng;
        // One draw seeds a cheap generator for the whole tape (SplitMix64).
        let mut s = runner.rng().next_u64();
        let mut cur = vec![0u32; self.0];
        for w in cur.iter_mut() {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *w = (z ^ (z >> 31)) as u32;
        }
        Ok(WordsTree { cur, prev: None, pass: 0, pos: 0, improved: false })
    }
}

/// Strategy drawing `len` words and building the case from them.
pub fn tape<T: Debug + Clone + 'static>(len: usize, f: fn(&mut Tape) -> T) -> BoxedStrategy<T> {
    Words(len).prop_map(move |w| f(&mut Tape::new(&w))).boxed()
}
