//! Choice tape: every random decision of a generator is one recorded number.
//!
//! A case is a pure function of its tape.  While generating, numbers come from a seeded PRNG and
//! are recorded; while replaying or shrinking they come from the (edited) recording and read as 0
//! ("the simplest choice") once it is exhausted.

pub struct Tape {
    data: Vec<u32>,
    pos: usize,
    rng: Option<u64>,
    /// choices that belong to one element of a sequence, its "one more" flag first
    spans: Vec<(usize, usize)>,
}

/// Upper bound on the number of choices one case may draw; afterwards every choice is 0, so
/// generators always terminate.
const MAX_CHOICES: usize = 6000;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { data: vec![], pos: 0, rng: Some(seed), spans: vec![] }
    }

    pub fn replay(data: &[u32]) -> Self {
        Tape { data: data.to_vec(), pos: 0, rng: None, spans: vec![] }
    }

    /// The choices that were actually consumed, and the spans among them.
    pub fn used(mut self) -> Used {
        self.data.truncate(self.pos);
        (self.data, self.spans)
    }

    pub fn mark(&self) -> usize {
        self.pos
    }

    /// The choices since `mark` made up one element of a sequence.
    pub fn span(&mut self, mark: usize) {
        if self.pos > mark {
            self.spans.push((mark, self.pos));
        }
    }

    /// Whether a sequence that has `have` of at most `max` elements (and at least `min`) goes on;
    /// every length is equally likely.
    pub fn more(&mut self, have: usize, min: usize, max: usize) -> bool {
        if have < min {
            return true;
        }
        if have >= max {
            return false;
        }
        let left = (max - have) as u32;
        self.chance(left, left + 1)
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.pos >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.rng {
            Some(state) => {
                *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let v = (mix(*state) >> 20) as u32 % n;
                self.data.push(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        v
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }

    /// True with probability `num/den`; `false` is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
}

pub type Used = (Vec<u32>, Vec<(usize, usize)>);

/// Shrink a failing tape: delete elements of sequences and blocks of choices, and reduce choices,
/// while `fails` stays true.
pub fn shrink(start: Used, mut fails: impl FnMut(&[u32]) -> Option<Used>, budget: usize) -> Vec<u32> {
    let (mut cur, mut spans) = start;
    let mut evals = 0usize;
    let better = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = cur.clone();
        // delete elements, big ones first
        let mut k = 0;
        loop {
            spans.sort_by_key(|(a, b)| (usize::MAX - (b - a), *a));
            spans.dedup();
            // choices past the end of the tape are zeros and not stored
            spans.retain(|(a, b)| a < b && *b <= cur.len());
            let Some((a, b)) = spans.get(k).copied() else { break };
            if evals > budget {
                return cur;
            }
            evals += 1;
            let mut cand = cur.clone();
            cand.drain(a..b);
            match fails(&cand) {
                Some((used, sp)) if better(&used, &cur) => {
                    cur = used;
                    spans = sp;
                }
                _ => k += 1,
            }
        }
        // delete blocks
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = cur.len();
            while i > 0 {
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
                if i + size > cur.len() {
                    continue;
                }
                if evals > budget {
                    return cur;
                }
                evals += 1;
                let mut cand = cur.clone();
                cand.drain(i..i + size);
                if let Some((used, sp)) = fails(&cand) {
                    if better(&used, &cur) {
                        cur = used;
                        spans = sp;
                    }
                }
            }
        }
        // reduce values
        for i in 0..before.len() {
            if i >= cur.len() {
                break;
            }
            let v = cur[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if nv >= v {
                    continue;
                }
                if evals > budget {
                    return cur;
                }
                evals += 1;
                let mut cand = cur.clone();
                cand[i] = nv;
                if let Some((used, sp)) = fails(&cand) {
                    if better(&used, &cur) {
                        cur = used;
                        spans = sp;
                        break;
                    }
                }
            }
        }
        if cur == before {
            return cur;
        }
    }
}
