//! C25: the low-level entry points compose to the simple ones, in every layout and sample type.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

/// position of every sample of plane `p` in the interleaved image
fn at(c: &Cfg, p: usize, i: usize) -> usize {
    let (n, ch) = (c.plane(), c.channels as usize);
    (p / ch) * n * ch + i * ch + p % ch
}
fn planar(img: &[u8], c: &Cfg) -> Vec<u8> {
    (0..c.planes()).flat_map(|p| (0..c.plane()).map(move |i| img[at(c, p, i)])).collect()
}
fn service(c: &Cfg, prog: &ColorTransformProgram) -> Result<(Vec<u8>, Vec<bool>), String> {
    let mut v = vec![];
    c.header().encode(&mut v).map_err(|e| format!("{}", e))?;
    let f = prog.encode(c.planes(), &mut v).map_err(|e| format!("{}", e))?;
    Ok((v, f))
}
fn payload(aux: &mut [i16], c: &Cfg, chroma: &[bool], room: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![0u8; room];
    let n = compress_aux_data(aux, &c.header(), chroma, &mut out).map_err(|e| format!("compress_aux_data: {:?}", e))?;
    out.truncate(n);
    Ok(out)
}

/// all ways to compress
fn ways_in(img: &[u8], c: &Cfg, prog: &Prog, l: &mut Local) -> Result<Vec<u8>, String> {
    let program = prog.build();
    let want = compress(img, c, &program)?;
    let h = c.header();
    let (head, chroma) = service(c, &program)?;
    ensure!(want.starts_with(&head), "the stream starts with {} instead of header and program {}", hex(&want[..head.len().min(want.len())]), hex(&head));
    let n = c.pixels();
    let planes = planar(img, c);
    // every layout and sample type, in rooms of different sizes
    let wide: Vec<i16> = img.iter().map(|&v| i16::from(v)).collect();
    let wide_planes: Vec<i16> = planes.iter().map(|&v| i16::from(v)).collect();
    let fns: [(&str, Box<dyn Fn(&mut [i16]) + '_>); 4] = [
        ("transform_and_to_planar of u8", Box::new(|a| program.transform_and_to_planar(img, &h, a))),
        ("transform_and_to_planar of i16", Box::new(|a| program.transform_and_to_planar(&wide, &h, a))),
        ("transform of u8", Box::new(|a| program.transform(&planes, &h, a))),
        ("transform of i16", Box::new(|a| program.transform(&wide_planes, &h, a))),
    ];
    for (j, (name, f)) in fns.iter().enumerate() {
        let mut aux = vec![0i16; n];
        f(&mut aux);
        let got = payload(&mut aux, c, &chroma, c.cap() + j * 13)?;
        ensure!(got == want[head.len()..], "{} and compress_aux_data: {:?} differs from compress_simple", name, first_diff(&got, &want[head.len()..]));
        l.op(2);
        l.trace(1);
    }
    // without a transform the plain conversion does
    if prog.0.iter().all(|s| s.factors.is_empty()) {
        let boost = h.get_boost();
        let mut aux = vec![0i16; n];
        interleaved_to_planar(img, c.planes(), boost, &mut aux, &[]);
        if c.layers == 1 {
            let got = payload(&mut aux, c, &chroma, c.cap())?;
            ensure!(got == want[head.len()..], "interleaved_to_planar and compress_aux_data: {:?} differs", first_diff(&got, &want[head.len()..]));
            l.trace(1);
        }
        let mut aux: Vec<i16> = planes.iter().map(|&v| i16::from(v) * boost).collect();
        let got = payload(&mut aux, c, &chroma, c.cap() + 5)?;
        ensure!(got == want[head.len()..], "boosted planes and compress_aux_data: {:?} differs", first_diff(&got, &want[head.len()..]));
        l.op(3);
        l.trace(1);
    }
    Ok(want)
}

/// the image as samples of another type, back in bytes
macro_rules! typed {
    ($t:ty, $program:expr, $aux:expr, $h:expr, $size:expr, $inter:expr) => {{
        let n = $aux.len();
        let mut out = vec![77 as $t; n + 2];
        let mut a = $aux.clone();
        if $inter {
            $program.detransform_and_to_interleaved(&mut a, $h, $size, &mut out);
        } else {
            $program.detransform(&mut a, $h, $size, &mut out);
        }
        ensure!(out[n..].iter().all(|v| *v == 77 as $t), "samples behind the image change");
        let bytes: Vec<u8> = out[..n].iter().map(|v| *v as u8).collect();
        ensure!(bytes.iter().zip(&out).all(|(b, v)| *b as $t == *v), "samples that are no bytes");
        bytes
    }};
}

/// all ways to decompress
fn ways_out(s: &[u8], c: &Cfg, prog: &Prog, types: bool, l: &mut Local) -> Res {
    let h = c.header();
    for ds in 0..=c.max_ds() {
        let (r, want) = decompress(s, ds)?;
        let mut data = s;
        Header::decode(&mut data).map_err(|e| format!("{:?}", e))?;
        let after_header = data.len();
        let mut chroma = vec![false; c.planes()];
        let program = ColorTransformProgram::decode(&mut data, &mut chroma).map_err(|e| format!("{:?}", e))?;
        let mut aux = vec![0i16; h.get_downsampled_image_size(ds)];
        let r2 = decompress_aux_data(data, &h, &chroma, ds, false, &mut aux).map_err(|e| format!("{:?}", e))?;
        let r3 = if r2 == 0 { 0 } else { r2 + after_header - data.len() };
        ensure!(r == r3, "ds {}: decompress_simple returns {}, decompress_aux_data {} (program {})", ds, r, r2, after_header - data.len());
        let size = h.get_downsampled_channel_size(ds);
        let (dw, dh) = c.down(ds);
        let small = Cfg { w: dw as u32, h: dh as u32, ..*c };
        let want_planar = planar(&want, &small);
        macro_rules! each {
            ($($t:ty)*) => { $(
                for inter in [true, false] {
                    let got = typed!($t, program, aux, &h, size, inter);
                    let want = if inter { &want } else { &want_planar };
                    ensure!(got == *want, "ds {} samples of {} interleaved {}: {:?} differs from decompress_simple", ds, stringify!($t), inter, first_diff(&got, want));
                    l.op(1);
                    l.trace(1);
                }
            )* };
        }
        each!(u8 i16);
        if types {
            each!(u16 u32 i32 u64 i64 usize isize f32 f64);
        }
        if prog.0.iter().all(|x| x.factors.is_empty()) {
            let boost = h.get_boost();
            if c.layers == 1 {
                let mut out = vec![0u8; want.len()];
                planar_to_interleaved(&aux, c.planes(), boost, &mut out, &[]);
                ensure!(out == want, "ds {}: planar_to_interleaved differs at {:?}", ds, first_diff(&out, &want));
                let mut out = vec![0f32; want.len()];
                planar_to_interleaved(&aux, c.planes(), boost, &mut out, &[]);
                ensure!(out.iter().zip(&want).all(|(a, b)| *a == f32::from(*b)), "ds {}: planar_to_interleaved of f32 differs", ds);
                l.op(2);
                l.trace(2);
            }
        }
        l.outcome(hash(&want));
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C25");
    // all settings of small images, all programs
    let m = k.pick(14, 28);
    k.section("all-shapes", m * m * 6 * 14 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let p = r.n(14) as usize;
        let kind = r.n(3) as usize;
        let c = Cfg { filter, enc, q: [1024, 333, 50][kind], block: [7, 2, 3][kind], chroma: [1, 8, 255][kind], ..Cfg::new(w, h, [1, 2, 3][kind], [6, 3, 2][kind]) };
        let lib = Prog::library(c.planes());
        let prog = &lib[p];
        let img = gen::image(i % gen::FAMILIES, &c);
        l.describe(format_args!("{:?} program {:?}", c, prog.ints()));
        l.sample(|| format!("{:?} program {:?}", c, prog.ints()));
        let s = ways_in(&img, &c, prog, l)?;
        ways_out(&s, &c, prog, i % 5 == 0, l)
    });
    // layers and channels
    k.section("structures", 8 * 8 * 6 * 14, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = (r.n(8) as u32 + 1, r.n(8) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let p = r.n(14) as usize;
        let c = Cfg { filter, enc, q: [1024, 333, 50][i as usize % 3], block: 2, chroma: 8, ..Cfg::new([5, 1, 4][i as usize % 3], [3, 6, 4][i as usize / 3 % 3], layers, channels) };
        let lib = Prog::library(c.planes());
        if p >= lib.len() {
            return l.skip();
        }
        let img = gen::image(4, &c);
        l.describe(format_args!("{:?} program {:?}", c, lib[p].ints()));
        let s = ways_in(&img, &c, &lib[p], l)?;
        ways_out(&s, &c, &lib[p], false, l)
    });
    // awkward and large shapes
    k.section("shapes", gen::SHAPES.len() as u64 * 6 * 5, |i, l| {
        let mut r = Radix(i);
        let s = r.of(&gen::SHAPES);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (_, _, prog) = Prog::shipped().swap_remove(r.n(5) as usize);
        let c = Cfg { filter, enc, q: [1024, 200][i as usize % 2], block: [2, 7][i as usize / 2 % 2], chroma: 4, ..Cfg::new(s.0, s.1, 1, 3) };
        l.describe(format_args!("{:?} program {:?}", c, prog.ints()));
        let s = ways_in(&gen::image(i % gen::FAMILIES, &c), &c, &prog, l)?;
        ways_out(&s, &c, &prog, i % 7 == 0, l)
    });
    let thorough = k.thorough;
    k.section("large", gen::HUGE.len() as u64 * 6, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = gen::HUGE[r.0 as usize];
        if s.0 as u64 * s.1 as u64 > 5_000_000 && !thorough {
            return l.skip();
        }
        let c = Cfg { filter, enc, q: [1024, 300][i as usize % 2], chroma: 8, ..Cfg::new(s.0, s.1, 1, 1) };
        let prog = [Prog::none(), Prog(vec![st(0, &[], 1, true)])][i as usize / 2 % 2].clone();
        l.describe(format_args!("{:?} program {:?}", c, prog.ints()));
        let s = ways_in(&gen::image(6, &c), &c, &prog, l)?;
        ways_out(&s, &c, &prog, false, l)
    });
    // skipped channels: the payload is that of the image without them, and they are kept when decoding
    let ch = k.pick(6u64, 8);
    k.section("skipped-channels", ch * (1 << ch) * 6 * 4, |i, l| {
        let mut r = Radix(i);
        let channels = r.n(ch) as usize + 1;
        let mask = r.n(1 << ch);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let kind = r.n(4) as usize;
        if mask >> channels != 0 || mask.count_ones() as usize == channels {
            return l.skip();
        }
        let kept: Vec<usize> = (0..channels).filter(|c| mask >> c & 1 == 0).collect();
        // in any order
        let mut skip: Vec<usize> = (0..channels).filter(|c| mask >> c & 1 == 1).collect();
        if i % 2 == 1 {
            skip.reverse();
        }
        let (w, h) = [(5, 4), (1, 9), (8, 8), (7, 3)][kind];
        let full = Cfg { filter, enc, q: [1024, 300, 64, 1000][kind], block: [2, 7, 3, 2][kind], ..Cfg::new(w, h, 1, channels as u32) };
        let c = Cfg { channels: kept.len() as u32, ..full };
        let img = gen::image(i % gen::FAMILIES, &full);
        l.describe(format_args!("{:?} without {:?}", full, skip));
        let n = c.plane();
        let reduced: Vec<u8> = (0..n).flat_map(|x| kept.iter().map(|k| img[x * channels + k]).collect::<Vec<_>>()).collect();
        let want = compress(&reduced, &c, &ColorTransformProgram::new())?;
        let boost = c.header().get_boost();
        let mut aux = vec![0i16; n * kept.len()];
        interleaved_to_planar(&img, channels, boost, &mut aux, &skip);
        let chroma = vec![false; kept.len()];
        let got = payload(&mut aux, &c, &chroma, c.cap())?;
        let head = want.len() - got.len().min(want.len());
        ensure!(got == want[head..] && head == 36, "payload differs from that of the reduced image at {:?}", first_diff(&got, &want[head..]));
        l.op(3);
        l.trace(1);
        for ds in 0..=c.max_ds() {
            let (_, pix) = decompress(&want, ds)?;
            let size = c.header().get_downsampled_channel_size(ds);
            let mut aux = vec![0i16; size * kept.len()];
            decompress_aux_data(&got, &c.header(), &chroma, ds, false, &mut aux).map_err(|e| format!("{:?}", e))?;
            let mut out: Vec<u16> = (0..size * channels).map(|x| 1000 + x as u16).collect();
            planar_to_interleaved(&aux, channels, boost, &mut out, &skip);
            for x in 0..size {
                for ch in 0..channels {
                    let want = match kept.iter().position(|&k| k == ch) {
                        Some(p) => u16::from(pix[x * kept.len() + p]),
                        None => 1000 + (x * channels + ch) as u16,
                    };
                    ensure!(out[x * channels + ch] == want, "ds {}: channel {} of pixel {} is {} instead of {}", ds, ch, x, out[x * channels + ch], want);
                }
            }
            l.op(3);
            l.trace(1);
        }
        l.outcome(hash(&got));
        Ok(())
    });
    // any choice of chroma planes by hand is the program that only marks them
    k.section("chroma-marks", (1 << 6) * 6 * 4 * 3, |i, l| {
        let mut r = Radix(i);
        let mask = r.n(1 << 6);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = r.n(4) as usize;
        let c = Cfg { filter, enc, q: [700, 1024, 20, 512][s], chroma: [8, 2, 255, 3][s], block: [2, 7, 2, 30][s], ..Cfg::new([6, 4, 9, 1][s], [5, 4, 2, 7][s], [1, 2, 6][r.n(3) as usize], [6, 3, 1][(i / (64 * 24)) as usize]) };
        let marks: Vec<bool> = (0..6).map(|p| mask >> p & 1 == 1).collect();
        let prog = Prog((0..6).filter(|&p| marks[p]).map(|p| st(p, &[], 1, true)).collect());
        let img = gen::image(4 + i % 3, &c);
        l.describe(format_args!("{:?} chroma {:?}", c, marks));
        let s = ways_in(&img, &c, &prog, l)?;
        let (head, flags) = service(&c, &prog.build())?;
        ensure!(flags == marks, "encoding reports chroma {:?}", flags);
        let mut aux: Vec<i16> = planar(&img, &c).iter().map(|&v| i16::from(v) * c.boost() as i16).collect();
        let got = payload(&mut aux, &c, &marks, c.cap())?;
        ensure!(got == s[head.len()..], "payload differs at {:?}", first_diff(&got, &s[head.len()..]));
        ways_out(&s, &c, &prog, false, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        let prog = [Prog::none(), Prog(vec![st(0, &[], 1, true)])][i as usize / 96 % 2].clone();
        l.describe(format_args!("{:?} family {}", c, f));
        let s = ways_in(&gen::image(f, &c), &c, &prog, l)?;
        ways_out(&s, &c, &prog, false, l)
    });
    gen::program_streams(&mut k, |c, prog, img, l| {
        let s = ways_in(img, c, prog, l)?;
        ways_out(&s, c, prog, c.w % 4 == 1, l)
    });
    // every combination of few settings
    let t = k.pick(4, 3);
    gen::settings_of(&mut k, t, 10_000, &[(gen::DS, 0)], |case, prog, img, l| {
        let s = ways_in(img, &case.c, prog, l)?;
        ways_out(&s, &case.c, prog, case.c.w % 4 == 1, l)
    });
    k.finish()
}
