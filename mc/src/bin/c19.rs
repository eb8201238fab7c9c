//! C19: uniform images are reproduced exactly at every setting and resolution.
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

fn uniform(c: &Cfg, values: &[u8]) -> Vec<u8> {
    let (n, ch) = (c.plane(), c.channels as usize);
    let mut v = vec![0; c.pixels()];
    for p in 0..c.planes() {
        for i in 0..n {
            v[(p / ch) * n * ch + i * ch + p % ch] = values[p];
        }
    }
    v
}

fn check(c: &Cfg, prog: &Prog, values: &[u8], l: &mut Local) -> Res {
    let img = uniform(c, values);
    let s = compress(&img, c, &prog.build())?;
    l.op(1);
    for ds in 0..=c.max_ds() {
        let (r, out) = decompress(&s, ds)?;
        l.op(1);
        ensure!(r == 0, "{:?} ds {}: decoding reports {}", c, ds, r);
        let (w, h) = c.down(ds);
        let want = uniform(&Cfg { w: w as u32, h: h as u32, ..*c }, values);
        ensure!(out == want, "{:?} program {:?} ds {} values {:?}: sample {:?} is {:?}", c, prog.ints(), ds, values, first_diff(&out, &want), first_diff(&out, &want).map(|i| out[i]));
    }
    l.outcome(hash(&s));
    l.trace(1);
    Ok(())
}

fn main() {
    let mut k = Check::new("C19");
    let thorough = k.thorough;
    // every value, quality and setting
    let qs: Vec<u32> = if k.thorough { (1..=1024).collect() } else { (1..=1024).filter(|q| q % 41 == 0 || (q & (q - 1)) == 0 || *q < 6 || *q > 1021).collect() };
    k.section("all-values-all-qualities", 256 * qs.len() as u64 * 6, |i, l| {
        let mut r = Radix(i);
        let v = r.n(256) as u8;
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let q = qs[r.n(qs.len() as u64) as usize];
        for (w, h) in [(5, 3), (1, 4), (8, 8)] {
            let c = Cfg { q, filter, enc, chroma: 1 + (v as u32 * 7) % 255, block: [2, 7][i as usize % 2], ..Cfg::new(w, h, 1, 1) };
            for prog in [Prog::none(), Prog(vec![st(0, &[], 1, true)])] {
                l.describe(format_args!("{:?} value {} program {:?}", c, v, prog.ints()));
                check(&c, &prog, &[v], l)?;
                l.state(1);
            }
        }
        l.sample(|| format!("value {} at quality {}", v, q));
        Ok(())
    });
    // color triples through the shipped programs
    let levels: Vec<u8> = if k.thorough { (0..=255u32).filter(|v| v % 5 == 0 || *v < 3 || *v > 252).map(|v| v as u8).collect() } else { vec![0, 1, 2, 3, 5, 9, 17, 64, 100, 127, 128, 200, 253, 254, 255] };
    let m = levels.len() as u64;
    k.section("colors", m * m * m, |i, l| {
        let mut r = Radix(i);
        let v = [r.of(&levels), r.of(&levels), r.of(&levels)];
        for (j, (_, _, prog)) in Prog::shipped().iter().enumerate() {
            let c = Cfg { q: [1024, 1, 300, 64, 1023][(i as usize + j) % 5], chroma: [1, 8, 255, 3][(i as usize / 5) % 4], filter: (i % 2) as u8, enc: ((i + j as u64) % 3) as u8, ..Cfg::new([1, 3, 4][i as usize % 3], [1, 2, 5][j % 3], 1, 3) };
            l.describe(format_args!("{:?} color {:?} program {:?}", c, v, prog.ints()));
            check(&c, prog, &v, l)?;
            l.state(1);
        }
        Ok(())
    });
    // every shape
    let m = k.pick(36u64, 80);
    k.section("shapes", m * m * 6, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        for (q, block, chroma) in [(1024, 2, 1), (1, 7, 255), (77, 3, 8), (512, 30, 2)] {
            let c = Cfg { q, block, chroma, filter, enc, ..Cfg::new(w, h, 1, 1) };
            l.describe(format_args!("{:?}", c));
            check(&c, &Prog(vec![st(0, &[], 1, q % 2 == 1)]), &[gen::mix(i) as u8], l)?;
            l.state(1);
        }
        let c = Cfg { q: 1 + (gen::mix(i) % 1024) as u32, block: 2 + (i % 6) as u32, chroma: 4, filter, enc, ..Cfg::new(w, h, 1, 3) };
        let v = gen::mix(i + 1).to_le_bytes();
        check(&c, &Prog::shipped()[(i % 4) as usize].2, &v[..3], l)
    });
    // custom programs over several planes and layers
    k.section("programs", 14 * 6 * 60, |i, l| {
        let mut r = Radix(i);
        let lib = Prog::library(6);
        let prog = &lib[r.n(14) as usize % lib.len()];
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let x = gen::mix(r.0 * 77 + 5) as usize;
        let c = Cfg { q: [1024, 1, 50, 400, 1000][x % 5], chroma: [1, 2, 17, 255][x / 5 % 4], block: [2, 5, 7][x / 20 % 3], filter, enc, ..Cfg::new(1 + (x / 60 % 12) as u32, 1 + (x / 720 % 12) as u32, [1, 2, 3][x / 8640 % 3], [6, 3, 2][x / 8640 % 3]) };
        let v: Vec<u8> = (0..c.planes()).map(|p| gen::mix(x as u64 ^ p as u64) as u8).collect();
        l.describe(format_args!("{:?} program {:?} values {:?}", c, prog.ints(), v));
        if !prog.in_range(&uniform(&c, &v), &c) {
            return l.skip();
        }
        check(&c, prog, &v, l)
    });
    // large images
    let big = [(128, 128), (129, 130), (200, 97), (1, 17000), (17000, 1), (3000, 7), (7, 3000), (512, 300)];
    k.section("large", big.len() as u64 * 6 * 5, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let q = r.of(&[1024, 1, 2, 200, 1023]);
        let c = Cfg { q, chroma: 8, filter, enc, ..Cfg::new(w, h, 1, 3) };
        l.describe(format_args!("{:?}", c));
        check(&c, &Prog::shipped()[(i % 4) as usize].2, &[(i * 37) as u8, (i * 11 + 200) as u8, 255 - (i % 200) as u8], l)
    });
    // beyond every 16 bit count, and the deepest levels that are quantised
    k.section("huge", gen::HUGE.len() as u64 * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let q = r.of(&[1, 500, 1024]);
        let (w, h) = gen::HUGE[r.0 as usize];
        if w as u64 * h as u64 > 5_000_000 && (q != 1 || enc != 1) && !thorough {
            return l.skip();
        }
        let c = Cfg { q, filter, enc, ..Cfg::new(w, h, 1, 1) };
        l.describe(format_args!("{:?}", c));
        check(&c, &Prog::none(), &[(i * 37 + 19) as u8], l)
    });
    // just above powers of two up to 2^24: where a single precision number loses them
    k.section("giant", 4 * 2, |i, l| {
        let n = (1 << [24, 21, 22, 23][(i / 2) as usize]) + 1;
        let (w, h) = if i % 2 == 0 { (n, 1) } else { (1, n) };
        let c = Cfg { q: [1, 1024, 300][(i % 3) as usize], filter: FILTERS[(i / 2 % 2) as usize], enc: ENCS[((i + 1) % 3) as usize], ..Cfg::new(w, h, 1, 1) };
        l.describe(format_args!("{:?}", c));
        check(&c, &Prog::none(), &[(i * 37 + 19) as u8], l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        check(&c, &Prog::none(), &[(i % 256) as u8], l)
    });
    // every combination of few settings
    gen::settings(&mut k, 10_000, &[(gen::DS, 0)], |case, prog, _, l| {
        let v: Vec<u8> = (0..case.c.planes()).map(|p| gen::mix(p as u64 ^ case.family << 9 ^ (case.c.block as u64) << 20 ^ (case.c.w as u64) << 30) as u8).collect();
        let prog = if prog.in_range(&uniform(&case.c, &v), &case.c) { prog.clone() } else { Prog::none() };
        check(&case.c, &prog, &v, l)
    });
    k.finish()
}
