//! C01: maximum quality is lossless.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

fn round(img: &[u8], c: &Cfg, prog: &Prog, l: &mut Local) -> Res {
    let s = compress(img, c, &prog.build())?;
    l.op(2);
    let (r, out) = decompress(&s, 0)?;
    ensure!(r == 0, "complete stream reported incomplete: {}", r);
    ensure!(out == img, "pixel {:?} differs after round trip; image {}", first_diff(&out, img), hex(img));
    l.trace(1);
    l.outcome(hash(&s));
    l.sample(|| format!("{:?} {:?} image {} -> {} bytes", c, prog.ints(), hex(&img[..img.len().min(24)]), s.len()));
    Ok(())
}

/// planar low-level path: transform, compress_aux_data, decompress_aux_data, detransform
fn round_planar(img: &[u8], c: &Cfg, prog: &Prog, l: &mut Local) -> Res {
    let h = c.header();
    let p = prog.build();
    let mut aux = vec![0i16; c.pixels()];
    p.transform(img, &h, &mut aux);
    let mut buf = vec![0u8; c.cap()];
    let mut prog_bytes = vec![];
    let chroma = p.encode(c.planes(), &mut prog_bytes).map_err(|e| e.to_string())?;
    let n = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|e| format!("compress_aux_data {:?}", e))?;
    let mut out_aux = vec![0i16; c.pixels()];
    let mut dec_chroma = vec![false; c.planes()];
    let mut rd = &prog_bytes[..];
    let p2 = ColorTransformProgram::decode(&mut rd, &mut dec_chroma).map_err(|e| format!("{:?}", e))?;
    let r = decompress_aux_data(&buf[..n], &h, &dec_chroma, 0, false, &mut out_aux).map_err(|e| format!("decompress_aux_data {:?}", e))?;
    ensure!(r == 0, "complete payload reported incomplete: {}", r);
    let mut out = vec![0xA5u8; img.len()];
    p2.detransform(&mut out_aux, &h, c.plane(), &mut out);
    l.op(4);
    l.trace(1);
    ensure!(out == img, "planar pixel {:?} differs after round trip; image {}", first_diff(&out, img), hex(img));
    Ok(())
}

fn shapes_up_to(area: u32) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = (1..=area).flat_map(|w| (1..=area / w).map(move |h| (w, h))).collect();
    v.sort_by_key(|s| (s.0 * s.1, s.0));
    v
}

fn main() {
    let mut k = Check::new("C01");

    // every image over an alphabet on every tiny shape
    for (area, alphabet) in [(k.pick(12, 14), vec![0u8, 255]), (k.pick(7, 8), vec![0, 1, 255]), (4, vec![0, 1, 2, 7, 127, 128, 254, 255])] {
        let shapes = shapes_up_to(area);
        let name = format!("all-images-{}-values", alphabet.len());
        let sizes: Vec<u64> = shapes.iter().map(|s| pow(alphabet.len() as u64, (s.0 * s.1) as u64)).collect();
        let total: u64 = sizes.iter().sum();
        k.section(&name, total * 12, |i, l| {
            let mut r = Radix(i);
            let (filter, enc, block) = (r.of(&FILTERS), r.of(&ENCS), r.of(&[2u32, 7]));
            let mut j = r.0;
            let s = (0..).find(|&s| if j < sizes[s] { true } else { j -= sizes[s]; false }).unwrap();
            let mut c = Cfg::new(shapes[s].0, shapes[s].1, 1, 1);
            c.filter = filter;
            c.enc = enc;
            c.block = block;
            l.describe(format_args!("{:?} image #{}", c, j));
            round(&gen::by_digits(j, &alphabet, c.pixels()), &c, &Prog::none(), l)
        });
    }

    // every pair of values in neighbouring pixels
    k.section("all-value-pairs", 65536 * 2 * 6, |i, l| {
        let mut r = Radix(i);
        let (a, b) = (r.n(256) as u8, r.n(256) as u8);
        let mut c = if r.bit() { Cfg::new(2, 1, 1, 1) } else { Cfg::new(1, 2, 1, 1) };
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        l.describe(format_args!("{:?} {} {}", c, a, b));
        round(&[a, b], &c, &Prog::none(), l)
    });

    // every colour over an alphabet through every program
    let vals: Vec<u8> = k.pick(vec![0, 1, 2, 3, 6, 7, 8, 31, 63, 64, 100, 127, 128, 129, 200, 252, 253, 254, 255], (0..=255).step_by(5).collect());
    let lib3 = Prog::library(3);
    let nv = vals.len() as u64;
    k.section("all-colors", nv * nv * nv * lib3.len() as u64, |i, l| {
        let mut r = Radix(i);
        let p = &lib3[r.n(lib3.len() as u64) as usize];
        let img = [r.of(&vals), r.of(&vals), r.of(&vals)];
        let c = Cfg::new(1, 1, 1, 3);
        l.describe(format_args!("{:?} {:?} {:?}", c, p.ints(), img));
        round(&img, &c, p, l)
    });
    k.section("all-two-color-images", pow(2, 12) * lib3.len() as u64 * 6, |i, l| {
        let mut r = Radix(i);
        let img = gen::by_digits(r.n(1 << 12), &[0, 255], 12);
        let p = &lib3[r.n(lib3.len() as u64) as usize];
        let mut c = Cfg::new(2, 2, 1, 3);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        l.describe(format_args!("{:?} {:?}", c, p.ints()));
        round(&img, &c, p, l)
    });

    // every shape up to a bound, every coder and filter, structured contents, small and large blocks
    let m = k.pick(20, 40);
    k.section("all-shapes", m * m * 2 * 3 * 3 * gen::FAMILIES, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 3, 7]);
        let f = r.n(gen::FAMILIES);
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &c, &Prog::none(), l)
    });

    // every impulse position and every edge position
    k.section("all-impulses", 13 * 13 * 169 * 6 * 2, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(13) as u32 + 1, r.n(13) as u32 + 1, 1, 1);
        let p = r.n(169) as usize;
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        let edge = r.bit();
        c.block = 2;
        if p >= c.pixels() {
            return l.skip();
        }
        let img: Vec<u8> = (0..c.pixels()).map(|j| if j == p || (edge && j > p) { 255 } else { 0 }).collect();
        l.describe(format_args!("{:?} impulse at {} edge {}", c, p, edge));
        round(&img, &c, &Prog::none(), l)
    });

    // settings: layers, channels, programs, block sizes
    let lib: Vec<Vec<Prog>> = (1..=15).map(Prog::library).collect();
    let fams = [4u64, 5, 2, 13, 6, 16];
    let nshape = k.pick(10, gen::SHAPES.len()) as u64;
    let blocks = [2u32, 3, 4, 7, 30];
    k.section("settings", nshape * 3 * 5 * 14 * 6 * blocks.len() as u64 * k.pick(2, 6), |i, l| {
        let mut r = Radix(i);
        let s = gen::SHAPES[r.n(nshape) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(5) as u32 + 1);
        let p = r.n(14) as usize;
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&blocks);
        let f = fams[r.n(6) as usize];
        let lib = &lib[c.planes() - 1];
        if p >= lib.len() {
            return l.skip();
        }
        let p = &lib[p];
        c.intent = [0, 7, 8, 10, 11][(i % 5) as usize];
        // without chroma planes the chroma scale must not matter
        c.chroma = if p.any_chroma() { 1 } else { 1 + (i % 255) as u32 };
        l.describe(format_args!("{:?} {:?} family {}", c, p.ints(), f));
        let img = gen::image(f, &c);
        round(&img, &c, p, l)?;
        round_planar(&img, &c, p, l)
    });

    k.section("all-block-sizes", 29 * 6 * 22 * 4, |i, l| {
        let mut r = Radix(i);
        let b = r.n(29) as u32 + 2;
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = gen::SHAPES[r.n(22) as usize];
        let c = Cfg { filter, enc, block: b, ..Cfg::new(s.0, s.1, 1, 2) };
        let f = fams[r.n(4) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &c, &Prog::none(), l)
    });

    // long, large, and many-channel images
    let big: Vec<(u32, u32, u32, u32)> = vec![(2047, 1, 1, 1), (2048, 1, 1, 1), (2049, 1, 1, 1), (1, 2049, 1, 1), (4096, 2, 1, 1), (4097, 2, 1, 1), (2, 4097, 1, 1),
        (5000, 3, 1, 2), (3, 5000, 1, 1), (64, 64, 1, 1), (65, 64, 1, 1), (96, 96, 1, 1), (97, 96, 1, 3), (128, 128, 1, 1), (129, 128, 1, 1), (200, 150, 1, 3), (150, 201, 2, 2),
        (257, 255, 1, 1), (300, 300, 1, 1), (1, 1, 1, 300), (1, 1, 300, 1), (2, 1, 256, 256), (1, 1, 257, 255), (1, 1, 1, 65535), (1, 1, 65535, 1), (1, 2, 300, 300), (9000, 1, 1, 1), (1, 17000, 1, 1),
        (513, 511, 1, 1), (70, 1100, 1, 1), (16385, 2, 1, 1), (40000, 1, 1, 1)];
    k.section("large", big.len() as u64 * 6 * 3 * 3, |i, l| {
        let mut r = Radix(i);
        let b = r.of(&big);
        let mut c = Cfg::new(b.0, b.1, b.2, b.3);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7, 5]);
        let f = r.of(&[4u64, 5, 6]);
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &c, &Prog::none(), l)
    });
    // counts beyond 16 bits: runs, blocks, rows and columns
    k.section("huge", k.pick(7, gen::HUGE.len() as u64) * gen::HUGE_CASES, |i, l| {
        let (c, f) = gen::huge(i);
        
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &c, &Prog::none(), l)
    });
    // more planes than 16 bits count
    k.section("many-planes", gen::MANY_PLANES, |i, l| {
        let (c, p, f) = gen::many_planes(i);
        l.describe(format_args!("{:?} family {}, {} planes chroma", c, f, p.0.len()));
        round(&gen::image(f, &c), &Cfg { q: 1024, chroma: 1, ..c }, &p, l)
    });
    // more than 2^24 samples in one direction
    k.section("giant", gen::GIANTS, |i, l| {
        let (c, f) = gen::giant(i);
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &Cfg { q: 1024, ..c }, &Prog::none(), l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        let c = Cfg { q: 1024, ..c };
        l.describe(format_args!("{:?} family {}", c, f));
        round(&gen::image(f, &c), &c, &Prog::none(), l)
    });
    gen::program_streams(&mut k, |c, prog, img, l| {
        let c = Cfg { q: 1024, chroma: if prog.any_chroma() { 1 } else { c.chroma }, ..c.clone() };
        round(img, &c, prog, l)?;
        round_planar(img, &c, prog, l)
    });
    // every combination of few settings
    gen::settings(&mut k, 20_000, &[(gen::Q, 1024), (gen::DS, 0)], |case, prog, img, l| {
        let mut c = case.c;
        if prog.any_chroma() {
            c.chroma = 1;
        }
        round(img, &c, prog, l)?;
        round_planar(img, &c, prog, l)
    });
    k.finish()
}
