//! C02: the compressed stream is the reference stream.
use mc::codec::*;
use mc::fw::*;
use mc::gen;

/// the stream of the implementation equals the stream of the reference for the same inputs
fn same(img: &[u8], c: &Cfg, prog: &Prog, exact: bool, l: &mut Local) -> Res {
    same_as(img, c, &prog.build(), prog, exact, l)
}
fn same_as(img: &[u8], c: &Cfg, built: &gfwx::ColorTransformProgram, prog: &Prog, exact: bool, l: &mut Local) -> Res {
    let s = compress(img, c, built)?;
    let (words, n) = ref_stream(img, c, prog, exact);
    let r = as_bytes(&words, n);
    l.op(1);
    l.trace(1);
    if s != r {
        let d = first_diff(&s, r).unwrap();
        return Err(format!("stream differs from the reference at byte {} (sizes {} and {}): {} instead of {}; image {}", d, s.len(), n,
            hex(&s[d.min(s.len())..s.len().min(d + 8)]), hex(&r[d.min(n)..n.min(d + 8)]), hex(img)));
    }
    l.outcome(hash(&s));
    l.sample(|| format!("{:?} {:?} image {} -> stream {}", c, prog.ints(), hex(&img[..img.len().min(24)]), hex(&s[..s.len().min(64)])));
    Ok(())
}

fn main() {
    let mut k = Check::new("C02");
    let quals = [1024u32, 1023, 900, 512, 511, 255, 128, 100, 63, 33, 17, 8, 2, 1];

    for (area, alphabet) in [(k.pick(9, 12), vec![0u8, 255]), (k.pick(6, 7), vec![0, 1, 255]), (4, vec![0, 1, 3, 90, 127, 128, 200, 255])] {
        let mut shapes: Vec<(u32, u32)> = (1..=area).flat_map(|w| (1..=area / w).map(move |h| (w, h))).collect();
        shapes.sort_by_key(|s| (s.0 * s.1, s.0));
        let sizes: Vec<u64> = shapes.iter().map(|s| pow(alphabet.len() as u64, (s.0 * s.1) as u64)).collect();
        let total: u64 = sizes.iter().sum();
        k.section(&format!("all-images-{}-values", alphabet.len()), total * 6 * quals.len() as u64, |i, l| {
            let mut r = Radix(i);
            let (filter, enc, q) = (r.of(&FILTERS), r.of(&ENCS), r.of(&quals));
            let mut j = r.0;
            let s = (0..).find(|&s| if j < sizes[s] { true } else { j -= sizes[s]; false }).unwrap();
            let c = Cfg { filter, enc, q, block: 2, ..Cfg::new(shapes[s].0, shapes[s].1, 1, 1) };
            l.describe(format_args!("{:?} image #{}", c, j));
            same(&gen::by_digits(j, &alphabet, c.pixels()), &c, &Prog::none(), true, l)
        });
    }

    // every quality
    let qshapes: Vec<(u32, u32)> = k.pick(vec![(16, 16), (13, 9), (40, 3)], vec![(16, 16), (13, 9), (40, 3), (33, 31), (1, 50), (64, 64)]);
    let fams = [4u64, 5, 2, 6, 13, 16, 22, 15];
    let nf = k.pick(4, 8);
    k.section("all-qualities", 1024 * 6 * qshapes.len() as u64 * nf, |i, l| {
        let mut r = Radix(i);
        let q = r.n(1024) as u32 + 1;
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = r.of(&qshapes);
        let f = fams[r.n(nf) as usize];
        let c = Cfg { filter, enc, q, block: 3, ..Cfg::new(s.0, s.1, 1, 1) };
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });

    // every chroma scale
    let cq = [1024u32, 1023, 700, 256, 77, 16, 3, 1];
    let chroma_progs = [Prog(vec![st(0, &[(1, -1)], 1, true)]), Prog::yuv444(), Prog::yuv()];
    k.section("all-chroma-scales", 255 * 8 * 6 * 3 * k.pick(2, 5), |i, l| {
        let mut r = Radix(i);
        let chroma = r.n(255) as u32 + 1;
        let q = r.of(&cq);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let p = &chroma_progs[r.n(3) as usize];
        let f = fams[r.n(5) as usize];
        let c = Cfg { filter, enc, q, chroma, block: 3, ..Cfg::new(14, 11, 1, 3) };
        l.describe(format_args!("{:?} {:?} family {}", c, p.ints(), f));
        same(&gen::image(f, &c), &c, p, false, l)
    });

    // every shape up to a bound
    let m = k.pick(20, 40);
    let sq = [1024u32, 400, 64];
    k.section("all-shapes", m * m * 6 * 3 * 3 * k.pick(6, gen::FAMILIES), |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc, q) = (r.of(&FILTERS), r.of(&ENCS), r.of(&sq));
        let block = r.of(&[2, 3, 7]);
        let f = r.n(gen::FAMILIES);
        let f = if k_is_small(f) { fams[f as usize] } else { f };
        let c = Cfg { filter, enc, q, block, ..Cfg::new(w, h, 1, 1) };
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });

    // every impulse and edge position
    k.section("all-impulses", 12 * 12 * 144 * 6 * 2 * 2, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(12) as u32 + 1, r.n(12) as u32 + 1, 1, 1);
        let p = r.n(144) as usize;
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        let edge = r.bit();
        c.q = r.of(&[1024, 150]);
        c.block = 2;
        if p >= c.pixels() {
            return l.skip();
        }
        let img: Vec<u8> = (0..c.pixels()).map(|j| if j == p || (edge && j > p) { 255 } else { 0 }).collect();
        l.describe(format_args!("{:?} impulse at {} edge {}", c, p, edge));
        same(&img, &c, &Prog::none(), true, l)
    });

    // layers, channels, programs, block sizes, intents
    let lib: Vec<Vec<Prog>> = (1..=15).map(Prog::library).collect();
    let nshape = k.pick(8, 22) as u64;
    let blocks = [2u32, 3, 4, 7, 30];
    k.section("settings", nshape * 3 * 5 * 14 * 6 * 5 * 3 * k.pick(1, 4), |i, l| {
        let mut r = Radix(i);
        let s = gen::SHAPES[r.n(nshape) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(5) as u32 + 1);
        let p = r.n(14) as usize;
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&blocks);
        c.q = r.of(&[1024, 300, 31]);
        let f = fams[r.n(4) as usize];
        let lib = &lib[c.planes() - 1];
        if p >= lib.len() {
            return l.skip();
        }
        c.intent = [0, 7, 8, 10, 11][(i % 5) as usize];
        c.chroma = [1, 8, 40][(i % 3) as usize];
        l.describe(format_args!("{:?} {:?} family {}", c, lib[p].ints(), f));
        same(&gen::image(f, &c), &c, &lib[p], false, l)
    });

    // the shipped constructors give the programs of the format
    let shipped = Prog::shipped();
    k.section("shipped-programs", 5 * 6 * 3 * 22 * 2, |i, l| {
        let mut r = Radix(i);
        let (name, built, p) = &shipped[r.n(5) as usize];
        let (filter, enc, q) = (r.of(&FILTERS), r.of(&ENCS), r.of(&[1024, 300, 20]));
        let s = gen::SHAPES[r.n(22) as usize];
        let f = fams[r.n(2) as usize];
        let c = Cfg { filter, enc, q, chroma: 8, ..Cfg::new(s.0, s.1, 1, 3) };
        l.describe(format_args!("{:?} {} family {}", c, name, f));
        same_as(&gen::image(f, &c), &c, built, p, false, l)
    });

    // every two-step program over an alphabet
    let factors = [-3i32, -1, 0, 1, 2, 5];
    let denoms = [1i32, 2, 3, 4, 8, 10];
    k.section("all-programs", pow(6, 6) * 8, |i, l| {
        let mut r = Radix(i);
        let (d0, d1) = (r.of(&denoms), r.of(&denoms));
        let (a, b, c0, d) = (r.of(&factors), r.of(&factors), r.of(&factors), r.of(&factors));
        let (ch0, ch1, rev) = (r.bit(), r.bit(), r.bit());
        let p = Prog(vec![st(0, &[(1, a), (2, b)], d0, ch0), st(if rev { 1 } else { 2 }, &[(0, c0), (if rev { 2 } else { 1 }, d)], d1, ch1)]);
        let c = Cfg { q: [1024, 200][(i / 7 % 2) as usize], chroma: 5, enc: (i % 3) as u8, ..Cfg::new(4, 3, 1, 3) };
        l.describe(format_args!("{:?} {:?}", c, p.ints()));
        let img = gen::image(4 + (i & 1) * 9, &c);
        // 16 bit arithmetic: values beyond four times the boosted range are outside of the format
        if !p.in_range(&img, &c) {
            return l.skip();
        }
        same(&img, &c, &p, false, l)
    });

    // every block size
    k.section("all-block-sizes", 29 * 6 * 22 * 2 * k.pick(1, 3), |i, l| {
        let mut r = Radix(i);
        let b = r.n(29) as u32 + 2;
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = gen::SHAPES[r.n(22) as usize];
        let q = r.of(&[1024, 200]);
        let c = Cfg { filter, enc, q, block: b, ..Cfg::new(s.0, s.1, 1, 2) };
        let f = fams[r.n(3) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });

    // long, large, and many-channel images
    let big: Vec<(u32, u32, u32, u32)> = vec![(2047, 1, 1, 1), (2048, 1, 1, 1), (2049, 1, 1, 1), (1, 2049, 1, 1), (4096, 2, 1, 1), (4097, 2, 1, 1), (2, 4097, 1, 1),
        (5000, 3, 1, 2), (3, 5000, 1, 1), (64, 64, 1, 1), (65, 64, 1, 1), (96, 96, 1, 1), (97, 96, 1, 3), (128, 128, 1, 1), (129, 128, 1, 1), (200, 150, 1, 3), (150, 201, 2, 2),
        (257, 255, 1, 1), (300, 300, 1, 1), (1, 1, 1, 300), (1, 1, 300, 1), (2, 1, 256, 256), (1, 1, 257, 255), (1, 1, 1, 65535), (1, 1, 65535, 1), (1, 2, 300, 300), (9000, 1, 1, 1), (1, 17000, 1, 1),
        (513, 511, 1, 1), (70, 1100, 1, 1), (16385, 2, 1, 1), (40000, 1, 1, 1)];
    k.section("large", big.len() as u64 * 6 * 2 * k.pick(2, 6), |i, l| {
        let mut r = Radix(i);
        let b = r.of(&big);
        let mut c = Cfg::new(b.0, b.1, b.2, b.3);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[7, 2]);
        c.q = r.of(&[1024, 90, 700, 500, 20, 4]);
        l.describe(format_args!("{:?} family 4", c));
        same(&gen::image(4 + i % 3, &c), &c, &Prog::none(), true, l)
    });

    // the shipped programs against the unmodified reference: known to differ where a sum that is
    // divided by 2, 4 or 8 is negative and not a multiple (the reference rounds down there)
    let exact: [(&str, Prog, [u8; 3]); 4] = [("yuv-floor", Prog::yuv(), [0, 3, 1]), ("a710bgr-floor", Prog::a710_bgr(), [0, 2, 1]),
        ("a710rgb-floor", Prog::a710_rgb(), [1, 2, 0]), ("div2-floor", Prog(vec![st(0, &[(1, -1)], 2, false)]), [5, 1, 9])];
    k.section("exact-reference", exact.len() as u64, |i, l| {
        let (key, p, px) = &exact[i as usize];
        let c = Cfg::new(1, 1, 1, 3);
        l.describe(format_args!("{:?} {:?} {:?}", c, p.ints(), px));
        same(px, &c, p, true, l).map_err(|e| format!("KEY:{}|{}", key, e))
    });
    // ... and to agree with it everywhere else
    let vals = [0u8, 1, 2, 3, 4, 8, 16, 100, 252, 255];
    k.section("exact-reference-agreeing", 1000 * 4 * 3, |i, l| {
        let mut r = Radix(i);
        let px = [r.of(&vals), r.of(&vals), r.of(&vals)];
        let (_, p, _) = &exact[r.n(4) as usize];
        let mut c = Cfg::new(1, 1, 1, 3);
        c.enc = r.of(&ENCS);
        l.describe(format_args!("{:?} {:?} {:?}", c, p.ints(), px));
        // sums of every step, in order, without boost
        let mut v: Vec<i32> = px.iter().map(|&x| x as i32).collect();
        let mut differs = false;
        for s in &p.0 {
            let sum: i32 = s.factors.iter().map(|&(ch, f)| v[ch] * f).sum();
            differs |= sum < 0 && sum % s.denom != 0;
            v[s.dest] += sum / s.denom;
        }
        if differs {
            return l.skip();
        }
        same(&px, &c, p, true, l)
    });
    // counts beyond 16 bits: runs, blocks, rows and columns
    k.section("huge", k.pick(7, gen::HUGE.len() as u64) * gen::HUGE_CASES, |i, l| {
        let (c, f) = gen::huge(i);
        let c = Cfg { q: [1024, 600][(i / 18 % 2) as usize], ..c };
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    // more planes than 16 bits count
    k.section("many-planes", gen::MANY_PLANES, |i, l| {
        let (c, p, f) = gen::many_planes(i);
        l.describe(format_args!("{:?} family {}, {} planes chroma", c, f, p.0.len()));
        same(&gen::image(f, &c), &c, &p, true, l)
    });
    // more than 2^24 samples in one direction
    k.section("giant", gen::GIANTS, |i, l| {
        let (c, f) = gen::giant(i);
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        same(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    // every decision of the coders right at, below and above its threshold
    let (cases, _) = mc::decide::cases(k.thorough);
    k.section("decision-boundaries", cases.len() as u64 * 2, |i, l| {
        let case = &cases[i as usize / 2];
        let filter = (i % 2) as u8;
        let c = Cfg { filter, enc: case.enc, block: 4, ..Cfg::new(case.w as u32, case.h as u32, 1, 1) };
        let prog = if case.chroma { Prog(vec![st(0, &[], 1, true)]) } else { Prog::none() };
        for s in mc::decide::SYMBOLS {
            if let Some(img) = case.image(s, filter) {
                l.describe(format_args!("{:?} {:?} image {}", c, prog.ints(), hex(&img)));
                same(&img, &c, &prog, true, l)?;
                l.count("threshold_images", 1);
            }
        }
        Ok(())
    });
    gen::program_streams(&mut k, |c, prog, img, l| same(img, c, prog, false, l));
    // every combination of few settings
    gen::settings(&mut k, 20_000, &[(gen::DS, 0)], |case, prog, img, l| same(img, &case.c, prog, false, l));
    k.finish()
}

/// family numbers that index the short list
fn k_is_small(f: u64) -> bool {
    f < 8
}
