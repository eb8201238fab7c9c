//! C09: decoding with downsampling is the low-pass band of the full decode.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

/// every downsampling level of one stream
fn all_levels(img: &[u8], c: &Cfg, prog: &Prog, own: bool, l: &mut Local) -> Res {
    let stream = if own {
        compress(img, c, &prog.build())?
    } else {
        let (w, n) = ref_stream(img, c, prog, false);
        as_bytes(&w, n).to_vec()
    };
    let coefs = model_coefs(img, c, prog);
    let lay = layout(&stream, c, prog);
    let h = c.header();
    for ds in 0..=c.max_ds() {
        let (dw, dh) = c.down(ds);
        ensure!((h.get_downsampled_width(ds), h.get_downsampled_height(ds)) == (dw, dh), "ds {}: size {}x{} instead of {}x{}", ds,
            h.get_downsampled_width(ds), h.get_downsampled_height(ds), dw, dh);
        ensure!(h.get_downsampled_channel_size(ds) == dw * dh && h.get_downsampled_image_size(ds) == dw * dh * c.planes()
            && h.get_decompress_buffer_size(ds) == dw * dh * c.planes(), "ds {}: wrong buffer sizes", ds);
        let want = model_decode(&coefs, c, prog, ds);
        let last = lay.levels.iter().rposition(|v| v.0 >> ds >= 1).unwrap();
        // all of the stream, only the needed levels, and needed levels with something else behind
        let needed = lay.levels[last].3;
        let mut other = stream[32..32 + needed].to_vec();
        other.extend((0..41).map(|i| gen::mix(i) as u8));
        for (what, data) in [("whole stream", &stream[32..]), ("needed levels", &stream[32..32 + needed]), ("needed levels and noise", &other[..])] {
            // samples behind the image stay
            let mut out = vec![0x5Au8; want.len() + 16];
            let r = decompress_simple(data, &h, ds, false, &mut out).map_err(|e| format!("ds {} {}: {:?}", ds, what, e))?;
            l.op(1);
            ensure!(r == 0, "ds {} {}: reported as incomplete ({})", ds, what, r);
            ensure!(out[..want.len()] == want[..], "ds {} {}: sample {:?} of the {}x{} image differs from the low-pass band: {:?} instead of {:?}", ds, what,
                first_diff(&out[..want.len()], &want), dw, dh, clip(&out), clip(&want));
            ensure!(out[want.len()..].iter().all(|&b| b == 0x5A), "ds {} {}: memory behind the image changed", ds, what);
        }
        l.state(1);
        l.trace(1);
        l.outcome(hash(&want));
        l.sample(|| format!("{:?} {:?} ds {} -> {}x{} from {} of {} bytes", c, prog.ints(), ds, dw, dh, needed, stream.len()));
    }
    Ok(())
}
fn clip(v: &[u8]) -> &[u8] {
    &v[..v.len().min(24)]
}

fn main() {
    let mut k = Check::new("C09");
    let m = k.pick(14, 26);
    k.section("all-shapes", m * m * 6 * 2 * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7]);
        c.q = r.of(&[1024, 200, 16]);
        let f = [4u64, 2, 13][(i % 3) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        all_levels(&gen::image(f, &c), &c, &Prog::none(), i % 2 == 0, l)
    });
    let shapes = [(6u32, 6u32), (9, 5), (16, 3), (3, 20), (33, 31), (17, 17), (1, 40), (130, 6), (64, 64), (71, 40), (5, 257)];
    let ns = shapes.len() as u64;
    let fs = k.pick(2, 6);
    k.section("settings", ns * 3 * 4 * 3 * 3 * 4 * fs, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(ns) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(4) as u32 + 1);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 3, 7]);
        c.q = r.of(&[1024, 513, 90, 7]);
        let f = r.n(fs);
        c.filter = (i % 2) as u8;
        c.chroma = [1, 4, 8, 200][(i / 2 % 4) as usize];
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        let f = ([4u64, 6, 13, 2, 14, 7][f as usize] + i % 3) % gen::FAMILIES;
        let img = gen::image(f, &c);
        if !prog.in_range(&img, &c) {
            return l.skip();
        }
        l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
        all_levels(&img, &c, prog, i % 3 == 0, l)
    });
    // every quality at levels where the effective quality reaches its maximum
    let step = k.pick(3, 1);
    k.section("qualities", (1024 / step) * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(21, 18, 1, 3);
        c.q = (r.n(1024 / step) * step + 1 + i % step) as u32;
        c.enc = r.of(&ENCS);
        c.filter = r.of(&FILTERS);
        c.block = 2;
        c.chroma = 1 + (c.q * 7) % 255;
        l.describe(format_args!("{:?}", c));
        all_levels(&gen::image(16 - i % 3, &c), &c, &Prog::yuv(), i % 2 == 1, l)
    });
    // many levels at coarse qualities: where run coding starts depends on the level in the whole image
    let sizes = [(520u32, 2u32), (2, 1030), (1100, 3), (3, 2100), (4200, 1), (2, 8200), (600, 520), (16500, 1), (1, 33000)];
    let nsz = k.pick(7, sizes.len() as u64);
    let nq = k.pick(16, 64);
    k.section("deep", nsz * nq * 3 * 4, |i, l| {
        let mut r = Radix(i);
        let (w, h) = sizes[r.n(nsz) as usize];
        let mut c = Cfg::new(w, h, 1, 2);
        c.q = r.n(nq) as u32 + 1;
        c.enc = r.of(&ENCS);
        c.chroma = r.of(&[1, 2, 8, 200]);
        c.filter = (i / 5 % 2) as u8;
        c.block = [2, 7, 30][(i / 3 % 3) as usize];
        let prog = &[Prog::none(), Prog(vec![st(1, &[(0, -1)], 1, true)])][(i % 2) as usize];
        let f = [4, 13, 2, 1, 6, 11][(i % 6) as usize];
        l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
        all_levels(&gen::image(f, &c), &c, prog, i % 3 == 0, l)
    });
    // every chroma scale
    k.section("chroma-scales", 255 * 3 * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(19, 11, 1, 3);
        c.chroma = r.n(255) as u32 + 1;
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 700, 31]);
        c.filter = (i % 2) as u8;
        c.block = 3;
        l.describe(format_args!("{:?}", c));
        all_levels(&gen::image(16 - i % 3, &c), &c, &[Prog::yuv(), Prog::a710_rgb(), Prog::yuv444()][(i % 3) as usize], i % 2 == 1, l)
    });
    // a uniform image stays uniform
    k.section("uniform", 256 * 6 * 4, |i, l| {
        let mut r = Radix(i);
        let v = r.n(256) as u8;
        let mut c = Cfg::new(13, 9, 1, 3);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 300, 20, 1]);
        c.chroma = 8;
        l.describe(format_args!("{:?} value {}", c, v));
        let color = [v, v.wrapping_mul(3), 255 - v];
        let img: Vec<u8> = (0..c.pixels()).map(|i| color[i % 3]).collect();
        let prog = [Prog::none(), Prog::yuv(), Prog::a710_bgr()][(i % 3) as usize].clone();
        let s = compress(&img, &c, &prog.build())?;
        for ds in 0..=c.max_ds() {
            let (r, out) = decompress(&s, ds)?;
            l.op(1);
            l.state(1);
            let (dw, dh) = c.down(ds);
            ensure!(r == 0 && out.len() == dw * dh * 3, "ds {}: {} {}", ds, r, out.len());
            ensure!(out.chunks(3).all(|p| p == color), "ds {}: not uniform {:?}: {:?}", ds, color, clip(&out));
        }
        l.trace(1);
        Ok(())
    });
    // counts beyond 16 bits: runs, blocks, rows and columns
    k.section("huge", k.pick(7, gen::HUGE.len() as u64) * gen::HUGE_CASES, |i, l| {
        let (c, f) = gen::huge(i);
        let c = Cfg { q: [1024, 600][(i / 18 % 2) as usize], ..c };
        if i % 3 != 1 {
            return l.skip();
        }
        l.describe(format_args!("{:?} family {}", c, f));
        all_levels(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    // more planes than 16 bits count
    k.section("many-planes", gen::MANY_PLANES, |i, l| {
        let (c, p, f) = gen::many_planes(i);
        l.describe(format_args!("{:?} family {}, {} planes chroma", c, f, p.0.len()));
        all_levels(&gen::image(f, &c), &c, &p, true, l)
    });
    // more than 2^24 samples in one direction
    let every = k.thorough;
    k.section("giant", gen::GIANTS, |i, l| {
        let (c, f) = gen::giant(i);
        if !every && (i == 18 || i < 12 && c.enc as u64 != i / 6) {
            return l.skip();
        }
        l.describe(format_args!("{:?} family {}", c, f));
        all_levels(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        all_levels(&gen::image(f, &c), &c, &Prog::none(), true, l)
    });
    gen::program_streams(&mut k, |c, prog, img, l| all_levels(img, c, prog, c.w % 2 == 0, l));
    // every combination of few settings
    gen::settings(&mut k, 10_000, &[(gen::DS, 0)], |case, prog, img, l| all_levels(img, &case.c, prog, case.family % 2 == 0, l));
    k.finish()
}
