//! C13: color transforms and layout conversions are exactly reversible.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

fn to_planes(img: &[u8], c: &Cfg) -> Vec<u8> {
    let (n, ch) = (c.plane(), c.channels as usize);
    (0..c.planes()).flat_map(|p| (0..n).map(move |i| img[(p / ch) * n * ch + i * ch + p % ch])).collect()
}

/// transform, compare with the model, and reverse, in both layouts
fn there_and_back(img: &[u8], c: &Cfg, prog: &Prog, l: &mut Local) -> Res {
    let h = c.header();
    let p = prog.build();
    let planar = to_planes(img, c);
    let n = c.pixels();
    // more room than needed: it stays
    let mut a = vec![0i16; n + 3];
    p.transform_and_to_planar(img, &h, &mut a);
    let mut b = vec![0i16; n + 3];
    p.transform(&planar, &h, &mut b);
    l.op(2);
    ensure!(a == b, "interleaved and planar samples transform differently at {:?}", first_diff(&a, &b));
    ensure!(a[n..] == [0; 3], "memory behind the planes changed");
    let (model, _) = prog.model_transform(img, c);
    // intermediate values of the chain are representable
    if prog.in_range(img, c) {
        let want: Vec<i16> = model.iter().flatten().map(|&v| v as i16).collect();
        ensure!(a[..n] == want[..], "transformed sample {:?}: {:?} instead of {:?}", first_diff(&a[..n], &want), clip(&a), clip(&want));
        l.trace(1);
    }
    l.outcome(hash16(&a));
    a.truncate(n);
    let mut b = a.clone();
    let mut out = vec![0xEEu8; n + 5];
    p.detransform_and_to_interleaved(&mut a, &h, c.plane(), &mut out);
    ensure!(out[..n] == img[..], "interleaved: sample {:?} is not restored", first_diff(&out[..n], img));
    ensure!(out[n..] == [0xEE; 5], "interleaved: memory behind the image changed");
    let mut out = vec![0xEEu8; n + 5];
    p.detransform(&mut b, &h, c.plane(), &mut out);
    ensure!(out[..n] == planar[..], "planar: sample {:?} is not restored", first_diff(&out[..n], &planar));
    ensure!(out[n..] == [0xEE; 5], "planar: memory behind the image changed");
    l.op(2);
    Ok(())
}
fn clip<T>(v: &[T]) -> &[T] {
    &v[..v.len().min(16)]
}

/// steps that never use their own destination
fn steps(planes: usize) -> Vec<Step> {
    let mut v = vec![];
    let single: Vec<(usize, i32)> = (0..planes).flat_map(|c| [-3, -1, 0, 1, 2].iter().map(move |&f| (c, f))).collect();
    let mut lists = vec![vec![]];
    lists.extend(single.iter().map(|&a| vec![a]));
    for &a in &single {
        for &b in &single {
            lists.push(vec![a, b]);
        }
    }
    for dest in 0..planes {
        for f in lists.iter().filter(|f| f.iter().all(|x| x.0 != dest)) {
            for denom in [1, 2, 3, 4, 7, 8] {
                v.push(st(dest, f, denom, false));
            }
        }
    }
    v
}

fn main() {
    let mut k = Check::new("C13");
    let thorough = k.thorough;
    // every color for every shipped program, at both boosts
    let stride = k.pick(3, 1);
    k.section("all-colors", 65536 * 5, |i, l| {
        let mut r = Radix(i);
        let (_, _, prog) = Prog::shipped().swap_remove(r.n(5) as usize);
        let (x, y) = (r.n(256) as u8, r.n(256) as u8);
        let mut c = Cfg::new(256, 1, 1, 3);
        let mut img = Vec::with_capacity(768);
        for g in 0..=255u8 {
            img.extend([x, g, y]);
        }
        // quick: of two boosts one, for colors away from the diagonals
        let both = (x ^ y) as u64 % stride == 0;
        for q in [1024, 1000] {
            if both || (q == 1024) == ((x as u64 + y as u64) % 2 == 0) {
                c.q = q;
                l.describe(format_args!("{:?} colors {} * {}", prog.ints(), x, y));
                there_and_back(&img, &c, &prog, l)?;
                l.state(255);
            }
        }
        l.sample(|| format!("{:?}: all {} {{0..255}} {}", prog.ints(), x, y));
        Ok(())
    });
    // every pair of steps on a small alphabet
    let all = steps(3);
    let n = all.len() as u64;
    let alphabet = [0u8, 1, 254, 255, 128, 77];
    let s2 = k.pick(11, 1);
    k.section("two-steps", n, |i, l| {
        let a = &all[i as usize];
        for (j, b) in all.iter().enumerate().filter(|b| b.1.dest != a.dest) {
            if (j as u64 + i) % s2 != 0 {
                continue;
            }
            let prog = Prog(vec![a.clone(), b.clone()]);
            let c = Cfg { q: [1024, 9][(i as usize + j / 2) % 2], ..Cfg::new(6, 6, 1, 3) };
            // all pairs, the third sample is another function of both
            let img: Vec<u8> = (0..36usize).flat_map(|p| [alphabet[p % 6], alphabet[p / 6], alphabet[(p % 6 * 2 + p / 6) % 6]]).collect();
            l.describe(format_args!("{:?} {:?}", prog.ints(), c));
            there_and_back(&img, &c, &prog, l)?;
            l.state(1);
        }
        Ok(())
    });
    let short: Vec<Step> = steps(4).into_iter().filter(|s| s.factors.len() == 1 && s.factors[0].1.abs() != 2 && [1, 3].contains(&s.denom)).collect();
    let sn = short.len() as u64;
    let s3 = k.pick(3, 1);
    k.section("three-steps", sn * sn, |i, l| {
        let mut r = Radix(i);
        let (a, b) = (&short[r.n(sn) as usize], &short[r.n(sn) as usize]);
        if a.dest == b.dest {
            return l.skip();
        }
        for (j, c3) in short.iter().enumerate().filter(|x| x.1.dest != a.dest && x.1.dest != b.dest) {
            if (i + j as u64) % s3 != 0 {
                continue;
            }
            let prog = Prog(vec![a.clone(), b.clone(), c3.clone()]);
            let (layers, channels) = [(1, 4), (2, 2), (4, 1)][(i as usize + j) % 3];
            let c = Cfg { q: [1024, 500][(i as usize + j) % 2], ..Cfg::new(3, 5, layers, channels) };
            let img: Vec<u8> = (0..c.pixels()).map(|p| alphabet[gen::mix(p as u64 ^ (i % 16) << 20) as usize % 6]).collect();
            l.describe(format_args!("{:?} {:?}", prog.ints(), c));
            there_and_back(&img, &c, &prog, l)?;
            l.state(1);
        }
        Ok(())
    });
    // programs, layers, channels, shapes
    k.section("layouts", 5 * 5 * 16 * 3 * 8, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = (r.n(5) as u32 + 1, r.n(5) as u32 + 1);
        let which = r.n(16) as usize;
        let q = r.of(&[1024, 1023, 1]);
        let s = r.of(&[(1, 1), (2, 1), (1, 2), (3, 3), (5, 2), (4, 7), (16, 1), (9, 11)]);
        let c = Cfg { q, ..Cfg::new(s.0, s.1, layers, channels) };
        let lib = Prog::library(c.planes());
        if which >= lib.len() {
            return l.skip();
        }
        for f in [4, 13, 2] {
            l.describe(format_args!("{:?} {:?} family {}", lib[which].ints(), c, f));
            there_and_back(&gen::image(f, &c), &c, &lib[which], l)?;
        }
        Ok(())
    });
    // long factor lists and large factors and denominators
    k.section("factors", 400 * 6, |i, l| {
        let mut r = Radix(i);
        let f = r.n(400) as i32 - 200;
        let denom = r.of(&[1, 2, 100, 255, 4096, 32767]);
        let c = Cfg { q: [1024, 77][(i % 2) as usize], ..Cfg::new(4, 4, 1, 3) };
        for prog in [Prog(vec![st(0, &[(1, f)], denom, false)]), Prog(vec![st(1, &[(2, 1), (2, f), (0, -f)], denom, true), st(0, &[(1, 1)], 1, false)])] {
            for fam in [4, 13, 21] {
                l.describe(format_args!("{:?} {:?} family {}", prog.ints(), c, fam));
                there_and_back(&gen::image(fam, &c), &c, &prog, l)?;
            }
        }
        Ok(())
    });
    // many steps, many factors in each
    let planes = [(1u32, 5u32), (1, 9), (3, 3), (1, 17), (20, 2), (1, 40), (40, 1), (7, 30), (1, 300)];
    k.section("long-programs", 9 * 12 * 7, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = r.of(&planes);
        let c = Cfg { q: [1024, 77][(i / 2 % 2) as usize], ..Cfg::new([1, 3, 8][(i % 3) as usize], [1, 2][(i % 2) as usize], layers, channels) };
        let p = c.planes();
        let steps = r.of(&[1usize, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 300]).min(p);
        let nf = r.of(&[1usize, 4, 5, 8, 9, 17, 400]).min(p - 1);
        // each destination once, in mixed order
        let mul = [1, 2, 3, 7, 11].iter().rev().copied().find(|m| p % m != 0).unwrap();
        let prog = Prog((0..steps).map(|s| {
            let dest = s * mul % p;
            let factors: Vec<(usize, i32)> = (0..nf).map(|f| ((dest + 1 + (f + s) % (p - 1)) % p, if f % 2 == 0 { 1 } else { -1 })).collect();
            st(dest, &factors, 1 + (s % 3) as i32 * nf as i32, dest % 4 == 1)
        }).collect());
        l.describe(format_args!("{:?} {} steps of {} factors", c, steps, nf));
        l.state(1);
        there_and_back(&gen::image([4, 13, 2][(i % 3) as usize], &c), &c, &prog, l)
    });
    // any planes, reversed: every 16 bit sample, clamped
    k.section("clamping", 256 * 2 * 3, |i, l| {
        let mut r = Radix(i);
        let hi = r.n(256) as i16;
        let q = r.of(&[1024, 800]);
        let kind = r.n(3);
        let c = Cfg { q, ..Cfg::new(128, 1, 1, 2) };
        let mut aux: Vec<i16> = (0..256).map(|x| (hi << 8) | x as i16).collect();
        let want: Vec<u8> = aux.iter().map(|&v| (i32::from(v) / c.boost()).clamp(0, 255) as u8).collect();
        l.describe(format_args!("{:?} samples {}..", c, aux[0]));
        let h = c.header();
        let p = ColorTransformProgram::new();
        let got: Vec<i64> = match kind {
            0 => {
                let mut o = vec![0u8; 256];
                p.detransform(&mut aux, &h, 128, &mut o);
                o.iter().map(|&v| i64::from(v)).collect()
            }
            1 => {
                let mut o = vec![0i32; 256];
                p.detransform_and_to_interleaved(&mut aux, &h, 128, &mut o);
                (0..256).map(|i| i64::from(o[i % 128 * 2 + i / 128])).collect()
            }
            _ => {
                let mut o = vec![0u16; 256];
                planar_to_interleaved(&aux, 2, c.boost() as i16, &mut o, &[]);
                (0..256).map(|i| i64::from(o[i % 128 * 2 + i / 128])).collect()
            }
        };
        l.op(1);
        l.trace(1);
        l.state(255);
        let want: Vec<i64> = want.iter().map(|&v| i64::from(v)).collect();
        ensure!(got == want, "sample {:?} is wrong", first_diff(&got, &want));
        Ok(())
    });
    // every combination of few choices of program, layout and contents
    let mut arrays = vec![("pairs", gen::programs(2, true)), ("triples", gen::programs(3, true))];
    if thorough {
        arrays.push(("quadruples", gen::programs(4, false)));
    }
    for (name, array) in &arrays {
        k.section(name, array.len(), |i, l| {
            let (c, prog, family) = gen::program_of(&array.row(i));
            if i == 0 {
                l.count("combinations", array.tuples);
            }
            l.describe(format_args!("{:?} {:?} family {}", prog.ints(), c, family));
            l.state(1);
            there_and_back(&gen::image(family, &c), &c, &prog, l)
        });
    }
    // any planes, reversed with a program
    k.section("reverse-any", 16 * 4 * 6 * 2, |i, l| {
        let mut r = Radix(i);
        let which = r.n(16) as usize;
        let (layers, channels) = r.of(&[(1, 3), (2, 3), (3, 1), (1, 6)]);
        let seed = r.n(6);
        let q = r.of(&[1024, 30]);
        let c = Cfg { q, ..Cfg::new(5, 3, layers, channels) };
        let lib = Prog::library(c.planes());
        if which >= lib.len() {
            return l.skip();
        }
        let prog = &lib[which];
        l.describe(format_args!("{:?} {:?} seed {}", prog.ints(), c, seed));
        let range = [600, 2100, 40, 300, 2040, 5][seed as usize];
        // for a smaller number of samples than the header says, as after downsampling
        for n in [15usize, 4, 1] {
            let mut planes: Vec<Vec<i16>> = (0..c.planes() as u64).map(|p| (0..n as u64).map(|x| (gen::mix(seed << 40 ^ p << 20 ^ x) % (2 * range)) as i16 - range as i16).collect()).collect();
            let mut aux: Vec<i16> = planes.iter().flatten().copied().collect();
            let mut aux2 = aux.clone();
            let want = model_detransform(&mut planes, &c, prog);
            let h = c.header();
            let mut out = vec![1u8; want.len()];
            prog.build().detransform_and_to_interleaved(&mut aux, &h, n, &mut out);
            ensure!(out == want, "{} samples per plane: interleaved sample {:?}", n, first_diff(&out, &want));
            let mut out = vec![1u8; want.len()];
            prog.build().detransform(&mut aux2, &h, n, &mut out);
            let want: Vec<u8> = planes.iter().flatten().map(|&v| (i32::from(v) / c.boost()).clamp(0, 255) as u8).collect();
            ensure!(out == want, "{} samples per plane: planar sample {:?}", n, first_diff(&out, &want));
            l.op(2);
            l.trace(2);
            l.outcome(hash(&out));
        }
        Ok(())
    });
    // layout conversion with every set of skipped channels
    let mc = k.pick(6, 8);
    k.section("conversion", (mc + 1) * (1 << mc) * 4 * 2, |i, l| {
        let mut r = Radix(i);
        let set = r.n(1 << mc);
        let channels = r.n(mc + 1) as usize;
        let size = r.of(&[1usize, 2, 5, 12]);
        let boost = r.of(&[1i16, 8]);
        if channels == 0 || set >> channels != 0 {
            return l.skip();
        }
        let mut skip: Vec<usize> = (0..channels).filter(|c| set >> c & 1 == 1).collect();
        if i % 3 == 0 {
            skip.reverse();
        }
        if i % 5 == 0 {
            // named twice, and one that does not exist
            let again = skip.clone();
            skip.extend(again);
            skip.push(channels + 1);
        }
        l.describe(format_args!("{} channels, {} samples, skipping {:?}, boost {}", channels, size, skip, boost));
        let img: Vec<u8> = (0..size * channels).map(|x| gen::mix(x as u64 ^ set << 30) as u8).collect();
        let kept: Vec<usize> = (0..channels).filter(|c| !skip.contains(c)).collect();
        let mut planar = vec![-999i16; size * channels];
        interleaved_to_planar(&img, channels, boost, &mut planar, &skip);
        let mut want = vec![-999i16; size * channels];
        for (k, &c) in kept.iter().enumerate() {
            for x in 0..size {
                want[k * size + x] = i16::from(img[x * channels + c]) * boost;
            }
        }
        ensure!(planar == want, "planes differ at {:?}", first_diff(&planar, &want));
        // exactly the planes that are needed
        let mut out: Vec<u8> = img.iter().map(|v| !v).collect();
        planar_to_interleaved(&planar[..kept.len() * size], channels, boost, &mut out, &skip);
        l.op(2);
        for (x, &v) in out.iter().enumerate() {
            let skipped = skip.contains(&(x % channels));
            let want = if skipped { !img[x] } else { img[x] };
            ensure!(v == want, "{} sample {} is {} instead of {}", if skipped { "skipped" } else { "converted" }, x, v, want);
        }
        l.trace(1);
        l.outcome(hash(&out));
        l.sample(|| format!("{} channels x {}, skip {:?}, boost {}", channels, size, skip, boost));
        Ok(())
    });
    // every boost whose products fit 16 bits, with every sample; every plane sample back, in every sample type
    k.section("any-boost", 128 * 4, |i, l| {
        let mut r = Radix(i);
        let boost = r.n(128) as i16 + 1;
        let channels = r.of(&[1usize, 2, 3, 7]);
        let size = 256;
        let skip: Vec<usize> = if i % 3 == 1 { vec![channels / 2] } else { vec![] };
        l.describe(format_args!("boost {} {} channels, skipping {:?}", boost, channels, skip));
        let kept: Vec<usize> = (0..channels).filter(|c| !skip.contains(c)).collect();
        let img: Vec<u8> = (0..size * channels).map(|x| ((x / channels * (2 * (x % channels) + 1)) ^ (x % channels * 31)) as u8).collect();
        let of = |x: usize, c: usize| i16::from(img[x * channels + c]);
        let want: Vec<i16> = kept.iter().flat_map(|&c| (0..size).map(move |x| (x, c))).map(|(x, c)| of(x, c) * boost).collect();
        let mut planar = vec![0i16; want.len()];
        interleaved_to_planar(&img, channels, boost, &mut planar, &skip);
        ensure!(planar == want, "plane sample {:?} differs", first_diff(&planar, &want));
        let wide: Vec<i16> = img.iter().map(|&v| i16::from(v)).collect();
        planar.fill(0);
        interleaved_to_planar(&wide, channels, boost, &mut planar, &skip);
        ensure!(planar == want, "plane sample {:?} differs (from 16 bits)", first_diff(&planar, &want));
        // signed samples, and those beyond 8 bits
        let limit = i16::MAX / boost;
        let signed: Vec<i16> = wide.iter().enumerate().map(|(x, &v)| ((v - 128) as i32 * limit as i32 / 128 + (x % 5) as i32 - 2).clamp(-(limit as i32), limit as i32) as i16).collect();
        planar.fill(0);
        interleaved_to_planar(&signed, channels, boost, &mut planar, &skip);
        let want: Vec<i16> = kept.iter().flat_map(|&c| (0..size).map(move |x| (x, c))).map(|(x, c)| signed[x * channels + c] * boost).collect();
        ensure!(planar == want, "plane sample {:?} differs (signed)", first_diff(&planar, &want));
        l.op(3);
        // back
        if kept.is_empty() {
            return Ok(());
        }
        for part in 0..256 / kept.len() + 1 {
            let planes: Vec<i16> = (0..kept.len() * size).map(|x| ((part * kept.len() + x / size) * 256 + x % size) as u16 as i16).collect();
            let want = |x: usize| -> i64 {
                match kept.iter().position(|&c| c == x % channels) {
                    Some(k) => (i64::from(planes[k * size + x / channels]) / i64::from(boost)).clamp(0, 255),
                    None => 77,
                }
            };
            macro_rules! back {
                ($($t:ty)*) => {{ $(
                    let mut o = vec![77 as $t; size * channels];
                    planar_to_interleaved(&planes, channels, boost, &mut o, &skip);
                    l.op(1);
                    for (x, &v) in o.iter().enumerate() {
                        ensure!(v as i64 == want(x), "{} sample {} is {} instead of {}", stringify!($t), x, v, want(x));
                    }
                )* }};
            }
            match (part + i as usize) % 4 {
                0 => back!(u8 i64),
                1 => back!(u8 u16 i32),
                2 => back!(u8 i16 u32),
                _ => back!(u8 f32 u64),
            }
            l.state(1);
        }
        l.trace(1);
        Ok(())
    });
    // beyond every 16 bit count
    k.section("huge", gen::HUGE.len() as u64 * 5, |i, l| {
        let (w, h) = gen::HUGE[(i / 5) as usize];
        let (_, _, prog) = Prog::shipped().swap_remove((i % 5) as usize);
        let c = Cfg { q: [1024, 500][(i % 2) as usize], ..Cfg::new(w, h, 1, 3) };
        if c.plane() > 5_000_000 && !thorough {
            return l.skip();
        }
        l.describe(format_args!("{:?} {:?}", prog.ints(), c));
        there_and_back(&gen::image(4, &c), &c, &prog, l)
    });
    // more channels and samples per channel than 16 bits count
    k.section("huge-conversion", 6 * 2, |i, l| {
        let mut r = Radix(i);
        let (channels, size) = r.of(&[(1usize, 66_000usize), (3, 66_000), (66_000, 1), (66_000, 2), (300, 300), (3, 1 << 20)]);
        let skip: Vec<usize> = if r.bit() { vec![channels / 2] } else { vec![] };
        l.describe(format_args!("{} channels of {} samples, skipping {:?}", channels, size, skip));
        let img: Vec<u8> = (0..size * channels).map(|x| gen::mix(x as u64) as u8).collect();
        let mut planar = vec![0i16; size * channels];
        interleaved_to_planar(&img, channels, 8, &mut planar, &skip);
        let kept: Vec<usize> = (0..channels).filter(|c| !skip.contains(c)).collect();
        for (k, &c) in kept.iter().enumerate() {
            for x in 0..size {
                ensure!(planar[k * size + x] == i16::from(img[x * channels + c]) * 8, "sample {} of channel {} is wrong", x, c);
            }
        }
        let mut out: Vec<u8> = img.iter().map(|v| !v).collect();
        planar_to_interleaved(&planar[..kept.len() * size], channels, 8, &mut out, &skip);
        for (x, &v) in out.iter().enumerate() {
            ensure!(v == if skip.contains(&(x % channels)) { !img[x] } else { img[x] }, "sample {} is not restored", x);
        }
        l.op(2);
        l.trace(1);
        Ok(())
    });
    k.finish()
}
