//! C18: valid data never trips a debug assertion, bounds check or arithmetic overflow.
//! Built with all of these enabled; a panic anywhere is the violation.
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

/// compress, decode at every resolution, and probe
fn trip(img: &[u8], c: &Cfg, prog: &Prog, lossless: bool, l: &mut Local) -> Res {
    let s = compress(img, c, &prog.build())?;
    l.op(1);
    let mut sum = 0;
    for ds in 0..=c.max_ds() {
        let (r, out) = decompress(&s, ds)?;
        l.op(1);
        ensure!(r == 0, "{:?} ds {}: decoding reports {}", c, ds, r);
        if ds == 0 && lossless {
            ensure!(out == img, "{:?}: pixel {:?} differs after a lossless round trip", c, first_diff(&out, img));
        }
        sum ^= hash(&out).rotate_left(ds as u32);
    }
    l.outcome(sum);
    l.trace(1);
    Ok(())
}

/// programs that ship with the crate, for this number of channels
fn programs(channels: u32) -> Vec<Prog> {
    if channels < 3 { vec![Prog::none()] } else { vec![Prog::yuv(), Prog::a710_bgr(), Prog::a710_rgb(), Prog::none(), Prog::yuv444()] }
}

/// the linear functionals that the values of a line lifted in place are of its samples, to find the
/// samples which make a value extreme
fn functionals(n: usize, cubic: bool) -> Vec<Vec<f64>> {
    let mut w: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect();
    let mut all: Vec<Vec<f64>> = vec![w[0].clone()];
    let add = |a: &[f64], b: &[f64], f: f64| a.iter().zip(b).map(|(x, y)| x + f * y).collect::<Vec<f64>>();
    let mut s = 1;
    while s < n {
        for (start, first, f) in [(s, 0, -1.0), (2 * s, s, 0.5)] {
            let old = w.clone();
            for x in (start..n).step_by(2 * s) {
                let c1 = &old[x - s];
                let c2 = if x + s < n { &old[x + s] } else { c1 };
                let sum = add(c1, c2, 1.0);
                all.push(sum.clone());
                let pred = if cubic {
                    let c0 = if x >= first + 3 * s { &old[x - 3 * s] } else { c1 };
                    let c3 = if x + 3 * s < n { &old[x + 3 * s] } else { c2 };
                    sum.iter().zip(c0.iter().zip(c3)).map(|(a, (b, c))| (9.0 * a - b - c) / 16.0).collect()
                } else {
                    sum.iter().map(|a| a / 2.0).collect::<Vec<f64>>()
                };
                w[x] = add(&w[x], &pred, f);
                all.push(w[x].clone());
            }
        }
        s *= 2;
    }
    // those with the same signs give the same image
    let mut out: Vec<Vec<f64>> = vec![];
    let mut signs = std::collections::HashSet::new();
    for f in all {
        if signs.insert(f.iter().map(|v| if v.abs() < 1e-9 { 0 } else { v.signum() as i8 }).collect::<Vec<_>>()) {
            out.push(f);
        }
    }
    out
}

/// three channels: color differences extreme with the signs of the functional, or gray
fn extreme(fx: &[f64], fy: &[f64], sign: f64, kind: u64, channels: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(fx.len() * fy.len() * channels);
    for b in fy {
        for a in fx {
            let up = a * b * sign > 0.0;
            let (hi, lo) = (if up { 255 } else { 0 }, if up { 0 } else { 255 });
            for ch in 0..channels {
                v.push(if kind == 0 || ch != 1 { hi } else { lo });
            }
        }
    }
    v
}

const QS: [u32; 8] = [1024, 1023, 512, 129, 64, 7, 2, 1];

fn main() {
    let mut k = Check::new("C18");
    if !cfg!(debug_assertions) {
        println!("C18 needs debug assertions");
        std::process::exit(3);
    }
    let none: [i16; 0] = [];
    let _ = none;
    // the checks are really on
    assert!(guarded(|| { let v = std::hint::black_box(i16::MAX); v + std::hint::black_box(1) }).is_err(), "overflow checks are off");

    // extreme images for every value of the wavelet transform
    let shapes: Vec<(usize, usize)> = if k.thorough {
        vec![(2, 2), (3, 3), (4, 4), (5, 5), (8, 8), (9, 9), (5, 9), (9, 5), (16, 16), (17, 17), (33, 9), (9, 33), (24, 20), (65, 2), (2, 65)]
    } else {
        vec![(2, 2), (3, 3), (4, 4), (5, 5), (8, 8), (9, 9), (5, 9), (16, 16), (17, 5), (33, 2), (2, 33)]
    };
    for (w, h) in shapes {
        for cubic in [false, true] {
            let (fx, fy) = (functionals(w, cubic), functionals(h, cubic));
            let name = format!("extremes-{}x{}-{}", w, h, if cubic { "cubic" } else { "linear" });
            let n = fx.len() as u64 * fy.len() as u64 * 2 * 2;
            let all = k.thorough;
            k.section(&name, n, |i, l| {
                let mut r = Radix(i);
                let kind = r.n(2);
                let sign = if r.bit() { 1.0 } else { -1.0 };
                let a = &fx[r.n(fx.len() as u64) as usize];
                let b = &fy[r.n(fy.len() as u64) as usize];
                let img = extreme(a, b, sign, kind, 3);
                let mut done = 0;
                for (j, &q) in QS.iter().enumerate() {
                    for enc in ENCS {
                        for (p, prog) in programs(3).iter().enumerate() {
                            // quick: each image under a third of the settings, all settings over the images
                            if !all && (j + enc as usize + p + i as usize) % 5 != 0 {
                                continue;
                            }
                            let c = Cfg { q, enc, filter: cubic as u8, chroma: [1, 8, 255][(j + p) % 3], block: [2, 7][(i as usize / 3) % 2], ..Cfg::new(w as u32, h as u32, 1, 3) };
                            l.describe(format_args!("{:?} program {:?} extreme image kind {} number {}", c, prog.ints(), kind, i));
                            trip(&img, &c, prog, q == 1024 && (c.chroma == 1 || !prog.any_chroma()), l)?;
                            done += 1;
                        }
                    }
                }
                l.state(done);
                l.sample(|| format!("{}x{} image {}", w, h, hex(&img[..img.len().min(48)])));
                Ok(())
            });
        }
    }
    // deep pyramids
    let big: Vec<(usize, usize)> = if k.thorough { vec![(65, 65), (129, 129), (257, 257), (512, 512), (1025, 65), (64, 1024)] } else { vec![(65, 65), (129, 129), (257, 257)] };
    for (w, h) in big {
        for cubic in [false, true] {
            let worst = |n: usize| {
                // one extreme line per level: the largest sum of magnitudes
                let mut f = functionals(n, cubic);
                f.sort_by(|a, b| {
                    let s = |v: &Vec<f64>| v.iter().map(|x| x.abs()).sum::<f64>();
                    s(b).partial_cmp(&s(a)).unwrap()
                });
                f.truncate(if n <= 129 { 6 } else { 2 });
                f
            };
            let (fx, fy) = (worst(w), worst(h));
            let name = format!("deep-{}x{}-{}", w, h, if cubic { "cubic" } else { "linear" });
            k.section(&name, fx.len() as u64 * fy.len() as u64 * 4, |i, l| {
                let mut r = Radix(i);
                let kind = r.n(2);
                let sign = if r.bit() { 1.0 } else { -1.0 };
                let a = &fx[r.n(fx.len() as u64) as usize];
                let b = &fy[r.n(fy.len() as u64) as usize];
                let img = extreme(a, b, sign, kind, 3);
                for (j, &q) in QS.iter().enumerate() {
                    let prog = &programs(3)[(i as usize + j) % 3];
                    let c = Cfg { q, enc: (j + i as usize) as u8 % 3, filter: cubic as u8, chroma: [8, 1, 255][j % 3], ..Cfg::new(w as u32, h as u32, 1, 3) };
                    l.describe(format_args!("{:?} program {:?} extreme image kind {} number {}", c, prog.ints(), kind, i));
                    trip(&img, &c, prog, q == 1024 && c.chroma == 1, l)?;
                    l.state(1);
                }
                Ok(())
            });
        }
    }
    // every black and white image of tiny shapes, one and three channels
    let area = k.pick(10, 13);
    let shapes: Vec<(u32, u32)> = (1..=area).flat_map(|w| (1..=area).map(move |h| (w, h))).filter(|s| s.0 * s.1 <= area).collect();
    let total: u64 = shapes.iter().map(|s| 1u64 << (s.0 * s.1)).sum();
    k.section("black-and-white", total, |i, l| {
        let mut j = i;
        let &(w, h) = shapes.iter().find(|s| if j < 1 << (s.0 * s.1) { true } else { j -= 1 << (s.0 * s.1); false }).unwrap();
        let mut done = 0;
        for channels in [1, 3] {
            let n = (w * h) as usize;
            let mut img = vec![0u8; n * channels as usize];
            for p in 0..n {
                let on = j >> p & 1 == 1;
                for ch in 0..channels as usize {
                    img[p * channels as usize + ch] = if on != (ch == 1) { 255 } else { 0 };
                }
            }
            for (a, &q) in QS.iter().enumerate() {
                for filter in FILTERS {
                    let prog = &programs(channels)[(i as usize + a) % programs(channels).len().min(3)];
                    let c = Cfg { q, enc: ((i as usize + a) % 3) as u8, filter, chroma: [1, 8, 255][a % 3], block: [2, 7, 30][a % 3], ..Cfg::new(w, h, 1, channels) };
                    l.describe(format_args!("{:?} program {:?} image #{}", c, prog.ints(), j));
                    trip(&img, &c, prog, q == 1024 && c.chroma == 1, l)?;
                    done += 1;
                }
            }
        }
        l.state(done);
        Ok(())
    });
    // every single coefficient of a three channel 1x1 and 2x1 image: all values
    let step = k.pick(5, 1);
    let vals: Vec<u8> = (0..=255u32).filter(|v| v % step == 0 || *v < 4 || *v > 251).map(|v| v as u8).collect();
    let m = vals.len() as u64;
    k.section("pixels", m * m * m, |i, l| {
        let mut r = Radix(i);
        let img = [r.of(&vals), r.of(&vals), r.of(&vals)];
        for (a, prog) in programs(3).iter().enumerate() {
            let c = Cfg { q: QS[(i % 8) as usize], chroma: [1, 100][a % 2], enc: (i % 3) as u8, ..Cfg::new(1, 1, 1, 3) };
            l.describe(format_args!("{:?} program {:?} image {:?}", c, prog.ints(), img));
            trip(&img, &c, prog, true, l)?;
        }
        Ok(())
    });
    // all shapes, contents and settings
    let m = k.pick(20u64, 40);
    let per = k.pick(12u64, 48);
    k.section("families", m * m * per, |i, l| {
        let mut r = Radix(i);
        let v = r.n(per);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let x = gen::mix(i) as usize;
        let channels = [1, 3, 4, 3, 2][x % 5];
        let c = Cfg { q: [1024, 1023, 900, 500, 256, 100, 33, 12, 3, 1][x / 5 % 10], enc: (v % 3) as u8, filter: (v / 3 % 2) as u8, chroma: [1, 2, 8, 64, 255][x / 50 % 5],
            block: [2, 3, 7, 30][x / 250 % 4], layers: [1, 1, 2, 3][x / 1000 % 4], ..Cfg::new(w, h, 1, channels) };
        let progs = programs(c.channels);
        let prog = &progs[x / 4000 % progs.len()];
        let f = (v * 7 + i) % 40;
        l.describe(format_args!("{:?} program {:?} family {}", c, prog.ints(), f));
        trip(&gen::image(f, &c), &c, prog, c.q == 1024 && (c.chroma == 1 || !prog.any_chroma()), l)
    });
    // images above the thresholds of parallel work, unusual sizes
    let big = [(129, 128), (100, 100), (300, 60), (60, 300), (5000, 4), (4, 5000), (1, 17000), (17000, 1), (200, 180)];
    k.section("large", big.len() as u64 * 12, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let v = r.n(12);
        let c = Cfg { q: [1024, 700, 30, 1][v as usize % 4], enc: (v % 3) as u8, filter: (v % 2) as u8, block: [2, 7, 4][(v / 4) as usize], ..Cfg::new(w, h, 1, 3) };
        let f = [4, 13, 3, 16, 15][(i % 5) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        trip(&gen::image(f, &c), &c, &Prog::yuv(), c.q == 1024, l)
    });
    // counts beyond 16 bits: runs, blocks, rows and columns
    k.section("huge", k.pick(4, 7) * gen::HUGE_CASES, |i, l| {
        let (c, f) = gen::huge(i);
        let c = Cfg { q: [1024, 600][(i / 18 % 2) as usize], ..c };
        if i / 6 % 3 == 2 {
            return l.skip();
        }
        l.describe(format_args!("{:?} family {}", c, f));
        trip(&gen::image(f, &c), &c, &Prog::none(), c.q == 1024, l)
    });
    // every combination of few settings
    gen::settings(&mut k, 10_000, &[(gen::DS, 0)], |case, prog, img, l| trip(img, &case.c, prog, case.c.q == 1024 && (case.c.chroma == 1 || !prog.any_chroma()), l));
    k.finish()
}
