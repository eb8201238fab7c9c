//! Deterministic contents: full alphabets (by digit) and structured families.
use crate::codec::{Cfg, Prog};

/// deterministic noise
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub const FAMILIES: u64 = 24;

/// family member `k`: one plane sample
fn sample(k: u64, x: usize, y: usize, p: usize, w: usize, h: usize) -> u8 {
    let n = |s: u64| mix(s ^ (x as u64) << 40 ^ (y as u64) << 20 ^ (p as u64) << 10 ^ k << 56);
    match k {
        0 => 0,
        1 => ((x * 255) / w.max(1)) as u8,
        2 => ((x * 5 + y * 3 + p * 17) & 255) as u8,
        3 => if (x + y + p) & 1 == 1 { 255 } else { 0 },
        4 => n(1) as u8,
        5 => (128 + (n(2) % 7) as i32 - 3) as u8,
        6 => if n(3) % 29 == 0 { 255 } else { 0 },
        7 => if (x / 3 + y / 5 + p) & 1 == 1 { 200 } else { 40 },
        8 => if x & 1 == 1 { 255 } else { 0 },
        9 => if y & 1 == 1 { 255 } else { 0 },
        10 => if x * 2 < w { ((x + y) * 2) as u8 } else { n(4) as u8 },
        11 => if (x, y, p) == (w / 2, h / 2, 0) { 255 } else { 0 },
        12 => if (x, y) == (w - 1, h - 1) { 255 } else { 10 },
        13 => if n(5) & 1 == 1 { 255 } else { 0 },
        14 => (((x * x + y * y) / 7 + p * 60) & 255) as u8,
        15 => if n(6) % 5 == 0 { n(7) as u8 } else { 100 },
        16 => ((128.0 + 127.0 * ((x as f64) * 0.13).sin() * ((y as f64) * 0.19 + p as f64).cos()) as i32).clamp(0, 255) as u8,
        17 => if (x & 2) ^ (y & 2) != 0 { 255 } else { 0 },
        18 => (n(8) % 2) as u8,
        19 => if p & 1 == 1 { 255 } else { n(9) as u8 & 15 },
        20 => if y * 2 < h { 7 } else { n(10) as u8 & 63 },
        21 => (200 + (n(11) % 56)) as u8,
        22 => if x == 0 || y == 0 || x + 1 == w || y + 1 == h { 255 } else { 0 },
        _ => if n(12) % 101 < 2 { 0 } else { 255 },
    }
}

/// interleaved image of family `k` (k < FAMILIES), any larger k is noise with seed k
pub fn image(k: u64, c: &Cfg) -> Vec<u8> {
    let (w, h) = (c.w as usize, c.h as usize);
    let mut v = Vec::with_capacity(c.pixels());
    for l in 0..c.layers as usize {
        for y in 0..h {
            for x in 0..w {
                for ch in 0..c.channels as usize {
                    let p = l * c.channels as usize + ch;
                    v.push(if k < FAMILIES { sample(k, x, y, p, w, h) } else { mix(k << 32 ^ v.len() as u64) as u8 });
                }
            }
        }
    }
    v
}

/// the `idx`-th image over the alphabet
pub fn by_digits(mut idx: u64, alphabet: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|_| {
        let d = idx % alphabet.len() as u64;
        idx /= alphabet.len() as u64;
        alphabet[d as usize]
    }).collect()
}
pub fn by_digits16(mut idx: u64, alphabet: &[i16], n: usize) -> Vec<i16> {
    (0..n).map(|_| {
        let d = idx % alphabet.len() as u64;
        idx /= alphabet.len() as u64;
        alphabet[d as usize]
    }).collect()
}

/// (w, h) list of medium shapes with awkward sizes, simplest first
pub const SHAPES: [(u32, u32); 22] = [(16, 16), (17, 17), (15, 16), (12, 10), (33, 7), (7, 33), (64, 1), (1, 64), (65, 3), (3, 65), (31, 32),
    (32, 31), (40, 24), (2, 40), (40, 2), (25, 25), (10, 50), (19, 13), (48, 48), (5, 130), (130, 5), (63, 21)];

/// sizes beyond every 16 bit count: runs, rows, columns, coefficients of one block
pub const HUGE: [(u32, u32); 9] = [(300, 300), (270000, 1), (1, 70000), (700, 700), (3, 66000), (1100, 1200), (1 << 21, 1), (2, 1 << 20), (4200, 4100)];
pub const HUGE_CASES: u64 = 6 * 3 * 4;
/// case of the huge list (number below HUGE_CASES times the number of shapes): configuration and image
/// families: one pixel at the end, one in the middle, sparse, dense black and white
pub fn huge(i: u64) -> (Cfg, u64) {
    let mut r = crate::fw::Radix(i);
    let (filter, enc) = (r.of(&crate::codec::FILTERS), r.of(&crate::codec::ENCS));
    let block = r.of(&[30, 2, 7]);
    let f = r.of(&[12u64, 11, 6, 13]);
    let s = HUGE[r.0 as usize];
    (Cfg { filter, enc, block, ..Cfg::new(s.0, s.1, 1, 1) }, f)
}

/// sizes that a single precision number does not hold: more than 2^24 samples in one direction, 25 levels
pub const GIANTS: u64 = 19;
pub fn giant(i: u64) -> (Cfg, u64) {
    if i == 18 {
        // the only way to the deepest level that is quantised
        return (Cfg { q: 1, block: 12, ..Cfg::new(8200, 8197, 1, 1) }, 6);
    }
    let mut r = crate::fw::Radix(i);
    let (filter, enc) = (r.of(&crate::codec::FILTERS), r.of(&crate::codec::ENCS));
    // then just above smaller powers of two
    let bits = if i < 12 { 24 } else { 21 + (i - 12) / 2 };
    let n = (1 << bits) + [3, 1][(i / 2 % 2) as usize];
    let (w, h) = if i / 6 == 1 || i % 2 == 1 && i >= 12 { (1, n) } else { (n, 1) };
    (Cfg { filter, enc, block: [30, 7, 2, 30, 9][(i % 5) as usize], q: [1024, 700][(i % 2) as usize], ..Cfg::new(w, h, 1, 1) }, [13u64, 6, 5][(i % 3) as usize])
}

/// more planes than 16 bits count, each with a flag of its own
pub const MANY_PLANES: u64 = 24;
pub fn many_planes(i: u64) -> (Cfg, Prog, u64) {
    let mut r = crate::fw::Radix(i);
    let (filter, enc) = (r.of(&crate::codec::FILTERS), r.of(&crate::codec::ENCS));
    let (w, h, layers, channels) = [(3, 2, 300, 300), (2, 2, 2, 40_000), (5, 3, 65_535, 2), (1, 3, 1030, 64)][r.0 as usize % 4];
    let c = Cfg { filter, enc, block: [30, 2, 7][(i % 3) as usize], q: [1024, 300, 1024, 60][(i / 2 % 4) as usize], chroma: [64, 8, 200][(i % 3) as usize], ..Cfg::new(w, h, layers, channels) };
    let planes = layers as u64 * channels as u64;
    let flags: Vec<usize> = (0..planes).filter(|&p| if i % 2 == 0 { p >= 65_536 } else { mix(p * 7 + i) & 1 == 1 }).map(|p| p as usize).collect();
    (c, Prog(flags.iter().map(|&p| crate::codec::st(p as _, &[], 1, true)).collect()), [4, 13, 5][(i % 3) as usize])
}

/// all shapes up to a bound, then long and narrow shapes: every length from 21 to `max`, both ways round, eight widths; all
/// coders and filters; quality, block size and contents change from shape to shape
pub fn strips(max: u64) -> u64 {
    6 * (max / 8) * (max / 8) + 6 * 2 * 8 * (max - 20)
}
pub fn strip(i: u64, max: u64) -> (Cfg, u64) {
    let mut r = crate::fw::Radix(i);
    let (filter, enc) = (r.of(&crate::codec::FILTERS), r.of(&crate::codec::ENCS));
    let m = max / 8;
    let (w, h) = if r.0 < m * m {
        (r.n(m) as u32 + 1, r.0 as u32 + 1)
    } else {
        r.0 -= m * m;
        let turn = r.bit();
        let k = r.of(&[1u32, 2, 3, 5, 8, 13, 16, 17]);
        let n = 21 + r.0 as u32;
        if turn { (k, n) } else { (n, k) }
    };
    let g = w as u64 + h as u64 * 3 + i % 6;
    let c = Cfg { filter, enc, block: [2, 7, 3, 30, 4][(g % 5) as usize], q: [1024, 1, 100, 500, 900, 1023, 64][(g % 7) as usize], ..Cfg::new(w, h, 1, 1) };
    (c, [4u64, 5, 13, 6, 2][(g / 2 % 5) as usize])
}

/// Settings in which every combination of values of any `t` parameters occurs (a covering array of strength `t`).
/// Deterministic and complete: `tuples` is the number of combinations, each of them is in some row.
pub struct Cover {
    pub tuples: u64,
    rows: Vec<[u8; PARAMS]>,
    values: Vec<Vec<u32>>,
}
const PARAMS: usize = 13;
pub const W: usize = 0;
pub const H: usize = 1;
pub const LAYERS: usize = 2;
pub const CHANNELS: usize = 3;
pub const Q: usize = 4;
pub const CHROMA: usize = 5;
pub const BLOCK: usize = 6;
pub const FILTER: usize = 7;
pub const ENC: usize = 8;
pub const INTENT: usize = 9;
pub const DS: usize = 10;
pub const PROG: usize = 11;
pub const FAMILY: usize = 12;

pub struct Case {
    pub c: Cfg,
    pub prog: usize,
    pub family: u64,
    /// requested downsampling, at most what the image has
    pub ds: usize,
}

/// values of each parameter: as many as fit (`fine`) or one of each kind
fn domains(fine: bool) -> Vec<Vec<u32>> {
    let near = |max: u32, dense: u32| {
        let mut v: Vec<u32> = (1..=dense).collect();
        for k in 0..=11 {
            v.extend([(1u32 << k).saturating_sub(1), 1 << k, (1 << k) + 1, 3 << k, (5 << k) - 2]);
        }
        v.retain(|&x| x >= 1 && x <= max);
        v.sort();
        v.dedup();
        v
    };
    if fine {
        let mut q = near(1024, 10);
        q.extend([100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 333, 777, 1022]);
        q.sort();
        q.dedup();
        q.reverse();
        let mut chroma = near(255, 12);
        chroma.extend([100, 150, 200, 208, 245]);
        vec![
            near(300, 36), near(300, 36), vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33],
            q, chroma, (2..=30).collect(), vec![0, 1], vec![0, 1, 2], vec![0, 7, 8, 10, 11, 12], (0..=8).collect(), (0..14).collect(), (1..24).collect(),
        ]
    } else {
        vec![
            vec![1, 2, 3, 6, 9, 17, 32, 33, 40, 70], vec![1, 2, 4, 5, 9, 16, 17, 34, 40, 70], vec![1, 2, 3, 6], vec![1, 2, 3, 4, 7],
            vec![1024, 1023, 777, 512, 301, 64, 8, 1], vec![1, 2, 8, 15, 100, 255], vec![2, 3, 4, 6, 8, 12, 21, 30], vec![0, 1], vec![0, 1, 2],
            vec![0, 7, 10], vec![0, 1, 2, 3, 5], (0..14).collect(), vec![4, 5, 13, 6, 2, 16, 22, 3],
        ]
    }
}

/// `pin` reduces parameters to one value: (index into the parameters, value)
pub fn cover(t: usize, fine: bool, limit: u64, pin: &[(usize, u32)]) -> Cover {
    let mut values = domains(fine);
    for &(p, v) in pin {
        values[p] = vec![v];
    }
    let n: Vec<usize> = values.iter().map(|v| v.len()).collect();
    let subsets: Vec<Vec<usize>> = (0u32..1 << PARAMS).filter(|m| m.count_ones() as usize == t).map(|m| (0..PARAMS).filter(|p| m >> p & 1 == 1).collect()).collect();
    let index = |s: &[usize], row: &[u8; PARAMS]| s.iter().fold(0usize, |a, &p| a * n[p] + row[p] as usize);
    let mut seen: Vec<Vec<bool>> = subsets.iter().map(|s| vec![false; s.iter().map(|&p| n[p]).product()]).collect();
    let mut order: Vec<usize> = (0..subsets.len()).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(seen[i].len()));
    let mut next = [0usize; PARAMS];
    let mut rows = Vec::new();
    let mut tuples = 0;
    for &i in &order {
        for k in 0..seen[i].len() {
            tuples += 1;
            if seen[i][k] {
                continue;
            }
            let mut row = [255u8; PARAMS];
            let mut rest = k;
            for &p in subsets[i].iter().rev() {
                row[p] = (rest % n[p]) as u8;
                rest /= n[p];
            }
            let mut size: u64 = [W, H, LAYERS, CHANNELS].iter().filter(|&&p| row[p] != 255).map(|&p| values[p][row[p] as usize] as u64).product();
            for p in 0..PARAMS {
                if row[p] != 255 {
                    continue;
                }
                // the next values in turn, the first that fits
                let fits = |v: usize| p > CHANNELS || v == 0 || size * values[p][v] as u64 <= limit;
                let v = (0..n[p]).map(|a| (next[p] + a) % n[p]).find(|&v| fits(v)).unwrap();
                next[p] = v + 1;
                row[p] = v as u8;
                if p <= CHANNELS {
                    size *= values[p][v] as u64;
                }
            }
            for (s, seen) in subsets.iter().zip(seen.iter_mut()) {
                seen[index(s, &row)] = true;
            }
            rows.push(row);
        }
    }
    Cover { tuples, rows, values }
}

impl Cover {
    pub fn len(&self) -> u64 {
        self.rows.len() as u64
    }
    pub fn case(&self, i: u64) -> Case {
        self.case_of(&self.rows[i as usize])
    }
    fn case_of(&self, r: &[u8; PARAMS]) -> Case {
        let v = |p: usize| self.values[p][r[p] as usize];
        let c = Cfg {
            w: v(W), h: v(H), layers: v(LAYERS), channels: v(CHANNELS), q: v(4), chroma: v(5), block: v(6), filter: v(7) as u8, enc: v(8) as u8,
            intent: v(9) as u8,
        };
        Case { c, prog: v(11) as usize, family: v(12) as u64, ds: (v(10) as usize).min(c.max_ds()) }
    }
    /// the row with one thing changed: a parameter has its next value, or two sizes are swapped
    pub fn neighbor(&self, i: u64, what: u64) -> Case {
        let mut r = self.rows[i as usize];
        let what = what as usize;
        if what < PARAMS {
            r[what] = (r[what] + 1) % self.values[what].len() as u8;
            self.case_of(&r)
        } else {
            let mut case = self.case_of(&r);
            if what == PARAMS {
                std::mem::swap(&mut case.c.w, &mut case.c.h);
            } else {
                std::mem::swap(&mut case.c.layers, &mut case.c.channels);
            }
            case
        }
    }
    pub const NEIGHBORS: u64 = PARAMS as u64 + 2;
    /// program and image of a case
    pub fn data(case: &Case) -> (crate::codec::Prog, Vec<u8>) {
        let img = image(case.family, &case.c);
        let prog = Cover::prog(case);
        if prog.in_range(&img, &case.c) {
            (prog, img)
        } else {
            (crate::codec::Prog::none(), img)
        }
    }
    /// the program of a case: one of the library for so many planes
    pub fn prog(case: &Case) -> crate::codec::Prog {
        let lib = crate::codec::Prog::library(case.c.planes());
        lib[case.prog % lib.len()].clone()
    }
}

/// Runs `f` for all pairs of values, all quadruples of coarser ones and (thorough) all triples of values.
pub fn settings<F>(k: &mut crate::fw::Check, limit: u64, pin: &[(usize, u32)], f: F)
where
    F: Fn(&Case, &crate::codec::Prog, &[u8], &mut crate::fw::Local) -> crate::fw::Res + Sync,
{
    settings_of(k, 4, limit, pin, f)
}
/// the same with `t`-tuples of coarser values (one more in the thorough tier, instead of the triples)
pub fn settings_of<F>(k: &mut crate::fw::Check, t: usize, limit: u64, pin: &[(usize, u32)], f: F)
where
    F: Fn(&Case, &crate::codec::Prog, &[u8], &mut crate::fw::Local) -> crate::fw::Res + Sync,
{
    let name = ["", "", "", "triples", "quadruples"];
    let mut arrays = vec![("pairs", cover(2, true, limit, pin)), (name[t], cover(t, false, limit / 4, pin))];
    if k.thorough {
        arrays.push(if t == 4 { ("triples", cover(3, true, limit, pin)) } else { (name[t + 1], cover(t + 1, false, limit / 4, pin)) });
    }
    for (name, cover) in arrays {
        k.section(name, cover.len(), |i, l| {
            let case = cover.case(i);
            let (prog, img) = Cover::data(&case);
            if i == 0 {
                l.count("combinations", cover.tuples);
            }
            l.describe(format_args!("{:?} {:?} family {} downsampling {}", case.c, prog.ints(), case.family, case.ds));
            f(&case, &prog, &img, l)
        });
    }
}

/// Rows in which every combination of values of any `t` columns occurs.
pub struct Array {
    pub tuples: u64,
    rows: Vec<Vec<u8>>,
    values: Vec<Vec<i32>>,
}
pub fn array(values: Vec<Vec<i32>>, t: usize) -> Array {
    let m = values.len();
    let n: Vec<usize> = values.iter().map(|v| v.len()).collect();
    let subsets: Vec<Vec<usize>> = (0u64..1 << m).filter(|s| s.count_ones() as usize == t).map(|s| (0..m).filter(|p| s >> p & 1 == 1).collect()).collect();
    let mut seen: Vec<Vec<bool>> = subsets.iter().map(|s| vec![false; s.iter().map(|&p| n[p]).product()]).collect();
    let mut order: Vec<usize> = (0..subsets.len()).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(seen[i].len()));
    let mut next = vec![0usize; m];
    let (mut rows, mut tuples) = (Vec::new(), 0);
    for &i in &order {
        for k in 0..seen[i].len() {
            tuples += 1;
            if seen[i][k] {
                continue;
            }
            let mut row = vec![255u8; m];
            let mut rest = k;
            for &p in subsets[i].iter().rev() {
                row[p] = (rest % n[p]) as u8;
                rest /= n[p];
            }
            for p in 0..m {
                if row[p] == 255 {
                    row[p] = (next[p] % n[p]) as u8;
                    next[p] += 1;
                }
            }
            for (s, seen) in subsets.iter().zip(seen.iter_mut()) {
                seen[s.iter().fold(0usize, |a, &p| a * n[p] + row[p] as usize)] = true;
            }
            rows.push(row);
        }
    }
    Array { tuples, rows, values }
}
impl Array {
    pub fn len(&self) -> u64 {
        self.rows.len() as u64
    }
    pub fn row(&self, i: u64) -> Vec<i32> {
        self.rows[i as usize].iter().zip(&self.values).map(|(&r, v)| v[r as usize]).collect()
    }
}

/// color programs of one to four steps with layouts, in which any `t` choices occur together; no step names a destination twice or
/// adds a channel to itself
pub fn programs(t: usize, fine: bool) -> Array {
    let step = |fine: bool| -> Vec<Vec<i32>> {
        if fine {
            // destination, number of factors, source, factor, second source, second factor, denominator, chroma
            vec![(0..9).collect(), vec![0, 1, 2, 3, 4], (0..9).collect(), (-9..=9).collect(), (0..9).collect(), (-5..=9).collect(), vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 100, 255, 1000, 32767], vec![0, 1]]
        } else {
            vec![vec![0, 1, 2, 5], vec![0, 1, 2, 3], vec![0, 1, 3], vec![-2, -1, 1, 3, 7], vec![0, 2, 4], vec![-1, 2], vec![1, 2, 4, 7, 100], vec![0, 1]]
        }
    };
    let mut v: Vec<Vec<i32>> = if fine {
        vec![(1..=40).collect(), vec![1, 2, 3, 5, 8, 13], vec![1, 2, 3, 4, 5], (1..=9).collect(), vec![1024, 1023, 512, 1], vec![1, 2, 3, 4], vec![4, 5, 13, 6, 2, 3]]
    } else {
        vec![vec![1, 2, 7, 16, 33], vec![1, 3, 8], vec![1, 2, 3], vec![1, 2, 3, 4, 7], vec![1024, 500], vec![1, 2, 3, 4], vec![4, 13, 2]]
    };
    v.extend(step(fine));
    v.extend(step(fine));
    array(v, t)
}
/// sections in which color programs of those spaces pass through whole streams; settings of the coder vary along
pub fn program_streams(k: &mut crate::fw::Check, f: impl Fn(&Cfg, &crate::codec::Prog, &[u8], &mut crate::fw::Local) -> crate::fw::Res + Sync) {
    for (name, array) in [("program-pairs", programs(2, true)), ("program-triples", programs(3, true))] {
        k.section(name, array.len(), |i, l| {
            let (mut c, prog, family) = program_of(&array.row(i));
            if i == 0 {
                l.count("combinations", array.tuples);
            }
            c.filter = (i % 2) as u8;
            c.enc = (i / 2 % 3) as u8;
            c.block = [2, 3, 5, 7, 30][(i % 5) as usize];
            c.chroma = [1, 3, 8, 16, 100, 255, 2][(i % 7) as usize];
            let img = image(family, &c);
            // planes of twice the range of an image: their wavelet coefficients fit 16 bits, whatever the contents
            let lim = i64::from(c.boost()) * 255 * 2;
            if !prog.in_range(&img, &c) || prog.model_transform(&img, &c).0.iter().flatten().any(|v| v.abs() > lim) {
                return l.skip();
            }
            l.describe(format_args!("{:?} {:?} family {}", prog.ints(), c, family));
            l.state(1);
            f(&c, &prog, &img, l)
        });
    }
}
pub fn program_of(r: &[i32]) -> (Cfg, crate::codec::Prog, u64) {
    let c = Cfg { q: r[4] as u32, ..Cfg::new(r[0] as u32, r[1] as u32, r[2] as u32, r[3] as u32) };
    let p = c.planes();
    let mut used = vec![false; p];
    let mut steps = Vec::new();
    for k in 0..(r[5] as usize).min(p) {
        // the first and the last step are the two described, those between are mixed from both
        let a = if k == 0 { &r[7..15] } else { &r[15..23] };
        let b = if k == 0 || k + 1 == r[5] as usize { a } else { &r[7..15] };
        let mut dest = (a[0] as usize + k / 2) % p;
        while used[dest] {
            dest = (dest + 1) % p;
        }
        used[dest] = true;
        let other = |s: usize| if s % p == dest { (s + 1) % p } else { s % p };
        let n = if p == 1 { 0 } else { a[1] as usize };
        let factors: Vec<(usize, i32)> = (0..n).map(|j| if j % 2 == 0 { (other(b[2] as usize + j / 2), b[3]) } else { (other(a[4] as usize + j / 2), a[5]) }).collect();
        steps.push(crate::codec::st(dest, &factors, b[6], a[7] == 1));
    }
    (c, crate::codec::Prog(steps), r[6] as u64)
}
