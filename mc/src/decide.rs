//! Coefficients that put a decision of the entropy coders right at, below or above its threshold.
use std::collections::HashMap;

/// the value coded under the decision is that at `at`, any of `SYMBOLS`
pub struct Case {
    pub enc: u8,
    pub q: i32,
    pub chroma: bool,
    pub w: usize,
    pub h: usize,
    d: Vec<i16>,
    at: usize,
}
pub const SYMBOLS: [i16; 8] = [0, 1, -1, 2, -3, 9, -40, 300];
impl Case {
    pub fn with(&self, s: i16) -> Vec<i16> {
        let mut d = self.d.clone();
        d[self.at] = s;
        d
    }
    /// the one channel image whose coefficients (maximum quality) these are, if there is one
    pub fn image(&self, s: i16, filter: u8) -> Option<Vec<u8>> {
        let mut d = self.with(s);
        d[0] = 128;
        crate::oracle::unlift(&mut d, self.w, self.h, filter);
        d.iter().map(|&v| u8::try_from(v).ok()).collect()
    }
}

/// how far a context is from each threshold: of symbols (chroma, luma, ...), then of run lengths
fn distances(c0: i64, c1: i64) -> [i64; 11] {
    let q = c0 * c0;
    let t = |m: i64, a: i64| q - m * c1 - a;
    [t(2, 250), t(2, 100), t(2, 950), t(3, 3000), t(5, 400), t(3, 12000), t(5, 3000), t(4, 44000), t(6, 12000), 2 * q - 3 * c1 - 48, 2 * q - 5 * c1 - 32]
}

/// all cases (up to a number for each), and how many pairs of a threshold and a distance they reach
pub fn cases(thorough: bool) -> (Vec<Case>, u64) {
    let mut cases: Vec<Case> = vec![];
    let mut met: HashMap<(u8, usize, i64), usize> = HashMap::new();
    let keep = if thorough { 200 } else { 24 };
    let mut near = |enc: u8, c0: i64, c1: i64, add: &mut dyn FnMut(i32, bool)| {
        let v = distances(c0, c1);
        // whether the decision is made at all
        let made = [true, true, v[1] >= 0, v[2] >= 0, v[2] >= 0 && v[3] < 0, v[3] >= 0, v[3] >= 0 && v[5] < 0, v[5] >= 0, v[5] >= 0 && v[7] < 0, c0 >= 4, c0 >= 4 && v[9] >= 0];
        for (t, d) in v.into_iter().enumerate() {
            if d.abs() <= 1 && made[t] {
                let n = met.entry((enc, t, d)).or_insert(0);
                *n += 1;
                if *n <= keep {
                    // thresholds of symbols, then those of run lengths
                    add([1024, 300][(t > 8) as usize], t == 0);
                }
            }
        }
    };
    let most = if thorough { 40i64 } else { 26 };
    // the context of the value at (5, 5) of 8x8 values is a mean over these: position, weight
    const NEAR: [(usize, i64); 10] = [(6 * 8 + 6, 2), (4 * 8 + 5, 2), (5 * 8 + 4, 2), (3 * 8 + 5, 4), (5 * 8 + 3, 4), (3 * 8 + 3, 2), (3 * 8 + 7, 2), (8 + 5, 2), (5 * 8 + 1, 2), (8 + 1, 1)];
    let count: i64 = NEAR.iter().map(|n| n.1).sum();
    for v in 0..=70 {
        for a in 0..=most {
            for b in 0..=most * 2 {
                for c in (0..200).filter(|c| v <= 2 && *c < 60 || [0, 1, 2, 5, 11, 30, 64, 120, 199].contains(c)) {
                    let value = |j: usize| match j { 9 => a, 3 => b, 0 => c, _ => v };
                    let (mut sum, mut sum2) = (0, 0);
                    for (j, n) in NEAR.iter().enumerate() {
                        sum += value(j) * n.1;
                        sum2 += value(j) * value(j) * n.1;
                    }
                    near(2, (sum * 16 + count / 2) / count, (sum2 * 16 + count / 2) / count, &mut |q, chroma| {
                        let mut d = vec![3i16; 64];
                        for (j, n) in NEAR.iter().enumerate() {
                            d[n.0] = if j % 3 == 1 { -value(j) as i16 } else { value(j) as i16 };
                        }
                        cases.push(Case { enc: 2, q, chroma, w: 8, h: 8, d, at: 5 * 8 + 5 });
                    });
                }
            }
        }
    }
    // the context is a decaying sum over all before
    for n in 0..if thorough { 30 } else { 14 } {
        for v in 1..=40 {
            for a in 0..=most {
                for b in 1..=most {
                    let (mut c0, mut c1) = (0i64, 0i64);
                    let seq = || std::iter::repeat_n(v, n).chain([a, b]).filter(|&t| t != 0);
                    for t in seq() {
                        c0 = ((c0 * 15 + 7) >> 4) + t;
                        c1 = ((c1 * 15 + 7) >> 4) + t * t;
                    }
                    near(1, c0, c1, &mut |_, chroma| {
                        let len = seq().count();
                        let mut d = vec![0i16; 2 * len + 3];
                        seq().enumerate().for_each(|(j, t)| d[2 * j + 1] = if j % 2 == 0 { t as i16 } else { -t as i16 });
                        let w = d.len();
                        cases.push(Case { enc: 1, q: 1024, chroma, w, h: 1, d, at: w - 2 });
                    });
                }
            }
        }
    }
    let reached = met.len() as u64;
    (cases, reached)
}
