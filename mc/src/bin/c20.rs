//! C20: channels and layers are coded independently of each other.
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

/// planar samples of an interleaved image of size n per plane
fn split(img: &[u8], n: usize, c: &Cfg) -> Vec<Vec<u8>> {
    let ch = c.channels as usize;
    (0..c.planes()).map(|p| (0..n).map(|i| img[(p / ch) * n * ch + i * ch + p % ch]).collect()).collect()
}
fn join(planes: &[Vec<u8>], c: &Cfg) -> Vec<u8> {
    let (n, ch) = (planes[0].len(), c.channels as usize);
    let mut v = vec![0; n * planes.len()];
    for (p, d) in planes.iter().enumerate() {
        for i in 0..n {
            v[(p / ch) * n * ch + i * ch + p % ch] = d[i];
        }
    }
    v
}
/// chroma flags only
fn flags(f: &[bool]) -> Prog {
    Prog(f.iter().enumerate().filter(|x| *x.1).map(|(p, _)| st(p, &[], 1, true)).collect())
}

fn check(c: &Cfg, planes: &[Vec<u8>], chroma: &[bool], l: &mut Local) -> Res {
    let all = join(planes, c);
    let prog = flags(chroma);
    let s = compress(&all, c, &prog.build())?;
    l.op(1);
    l.outcome(hash(&s));
    let lay = layout(&s, c, &prog);
    for ds in 0..=c.max_ds().min(3) {
        let (dw, dh) = c.down(ds);
        let (r, out) = decompress(&s, ds)?;
        l.op(1);
        ensure!(r == 0, "{:?} ds {}: decoding reports {}", c, ds, r);
        let got = split(&out, dw * dh, c);
        // where the blocks of the plane start in each level
        let mut starts = vec![0; lay.blocks.len()];
        for p in 0..c.planes() {
            let one = Cfg { layers: 1, channels: 1, ..*c };
            let sp = flags(&chroma[p..p + 1]);
            let s1 = compress(&planes[p], &one, &sp.build())?;
            let (r1, alone) = decompress(&s1, ds)?;
            l.op(2);
            ensure!(r1 == 0, "{:?} alone: decoding reports {}", one, r1);
            ensure!(got[p] == alone, "{:?} ds {}: plane {} differs at {:?} from its decoding alone", c, ds, p, first_diff(&got[p], &alone));
            if ds == 0 {
                // the very blocks are the same
                let l1 = layout(&s1, &one, &sp);
                for (lv, sizes) in l1.blocks.iter().enumerate() {
                    let n = sizes.len();
                    let a = &lay.blocks[lv];
                    ensure!(a.len() == n * c.planes() && a[p * n..(p + 1) * n] == sizes[..], "{:?}: block sizes of plane {} at level {} are {:?}, alone {:?}", c, p, lv, &a[p * n..(p + 1) * n], sizes);
                    let start = 32 + lay.levels[lv].2 + starts[lv];
                    let len: usize = sizes.iter().sum();
                    let b = 32 + l1.levels[lv].2;
                    ensure!(s[start..start + len] == s1[b..b + len], "{:?}: blocks of plane {} at level {} differ from those alone", c, p, lv);
                    starts[lv] += len;
                }
            }
        }
    }
    // the same planes as one layer, and as layers of one channel
    for (layers, channels) in [(1, c.planes() as u32), (c.planes() as u32, 1)] {
        if c.planes() > 65_535 {
            continue;
        }
        let o = Cfg { layers, channels, ..*c };
        let so = compress(&join(planes, &o), &o, &prog.build())?;
        l.op(1);
        ensure!(so[32..] == s[32..], "{:?}: stream differs from that with {} layers of {} channels", c, layers, channels);
    }
    l.trace(1);
    Ok(())
}

fn main() {
    let mut k = Check::new("C20");
    const STRUCTS: [(u32, u32); 10] = [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 5), (4, 3), (3, 4)];
    // all contents of two planes of two samples
    const A: [u8; 4] = [0, 1, 130, 255];
    k.section("all-contents", pow(4, 6) * 2 * 6 * 4, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (layers, channels) = if r.bit() { (1, 2) } else { (2, 1) };
        let chroma = [r.bit(), r.bit()];
        let d = gen::by_digits(r.0, &A, 6);
        let c = Cfg { filter, enc, q: [1024, 300, 20][i as usize % 3], chroma: 3, block: 2, ..Cfg::new(3, 1, layers, channels) };
        l.describe(format_args!("{:?} contents {:?}", c, d));
        check(&c, &[d[..3].to_vec(), d[3..].to_vec()], &chroma, l)
    });
    // all structures, shapes, settings
    let m = k.pick(12u64, 22);
    let reps = k.pick(2u64, 6);
    k.section("structures", 10 * m * m * 6 * reps, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = r.of(&STRUCTS);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let x = gen::mix(i) as usize;
        let c = Cfg { filter, enc, q: [1024, 1, 40, 300, 900][x % 5], chroma: [1, 2, 8, 255][x / 5 % 4], block: [2, 3, 7][x / 20 % 3], ..Cfg::new(w, h, layers, channels) };
        let one = Cfg { layers: 1, channels: 1, ..c };
        let planes: Vec<Vec<u8>> = (0..c.planes()).map(|p| gen::image((x / 100 + p * 5) as u64 % 32, &one)).collect();
        let chroma: Vec<bool> = (0..c.planes()).map(|p| x >> (20 + p) & 1 == 1).collect();
        l.describe(format_args!("{:?} chroma {:?}", c, chroma));
        l.sample(|| format!("{:?} chroma {:?}", c, chroma));
        check(&c, &planes, &chroma, l)
    });
    // larger images: several blocks per plane, parallel thresholds
    let big = [(130, 60), (64, 65), (200, 33), (33, 200), (129, 129)];
    k.section("large", big.len() as u64 * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (layers, channels) = r.of(&[(1, 2), (2, 1), (2, 2)]);
        let c = Cfg { filter, enc, q: [1024, 300, 20][i as usize % 3], chroma: 8, block: [2, 4, 7][i as usize / 3 % 3], ..Cfg::new(w, h, layers, channels) };
        let one = Cfg { layers: 1, channels: 1, ..c };
        let planes: Vec<Vec<u8>> = (0..c.planes()).map(|p| gen::image((i + p as u64 * 3) % 24, &one)).collect();
        let chroma: Vec<bool> = (0..c.planes()).map(|p| p % 2 == 1).collect();
        l.describe(format_args!("{:?}", c));
        check(&c, &planes, &chroma, l)
    });
    // many channels and layers: counts beyond 8 and 16 bits
    let counts = [(1, 255), (255, 1), (256, 1), (1, 256), (1, 257), (16, 17), (255, 257), (256, 256), (257, 256), (1, 65535), (65535, 1), (2, 40000), (40000, 2), (65535, 2), (3, 32768)];
    k.section("counts", counts.len() as u64 * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = r.of(&counts);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (w, h) = r.of(&[(1, 1), (2, 1), (3, 2)]);
        let c = Cfg { filter, enc, q: [1024, 100][i as usize % 2], chroma: 16, ..Cfg::new(w, h, layers, channels) };
        l.describe(format_args!("{:?}", c));
        let img = gen::image(4, &c);
        // chroma flags on a few planes, one beyond every width
        let mut marked: Vec<usize> = vec![0, 254, 255, 256, 65534, 65535, 65536, c.planes() - 1];
        marked.retain(|&p| p < c.planes());
        marked.dedup();
        let prog = Prog(marked.iter().map(|&p| st(p, &[], 1, true)).collect());
        let s = compress(&img, &c, &prog.build())?;
        let (res, out) = decompress(&s, 0)?;
        l.op(2);
        ensure!(res == 0, "{:?}: decoding reports {}", c, res);
        let one = Cfg { layers: 1, channels: 1, ..c };
        let n = c.plane();
        let (ip, op) = (split(&img, n, &c), split(&out, n, &c));
        // each distinct plane content is decoded alone once per chroma flag
        let mut memo = std::collections::HashMap::new();
        for p in 0..c.planes() {
            let chroma = marked.contains(&p);
            if !memo.contains_key(&(ip[p].clone(), chroma)) {
                if memo.len() > 3000 {
                    continue;
                }
                let s1 = compress(&ip[p], &one, &flags(&[chroma]).build())?;
                let (_, o) = decompress(&s1, 0)?;
                l.op(2);
                memo.insert((ip[p].clone(), chroma), o);
            }
            let alone = &memo[&(ip[p].clone(), chroma)];
            ensure!(op[p] == *alone, "{:?}: plane {} is {:?}, alone {:?}", c, p, op[p], alone);
        }
        for p in 0..c.planes() {
            ensure!(c.q != 1024 || marked.contains(&p) || op[p] == ip[p], "{:?}: plane {} is not lossless", c, p);
        }
        l.state(c.planes() as u64);
        l.outcome(hash(&s));
        l.trace(1);
        Ok(())
    });
    // more planes than 16 bits count
    k.section("many-planes", gen::MANY_PLANES, |i, l| {
        let (c, p, f) = gen::many_planes(i);
        l.describe(format_args!("{:?} family {}, {} planes chroma", c, f, p.0.len()));
        let mut chroma = vec![false; c.planes()];
        p.0.iter().for_each(|s| chroma[s.dest] = true);
        check(&c, &split(&gen::image(f, &c), c.pixels() / c.planes(), &c), &chroma, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(400, 1000);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        let (layers, channels) = [(1, 2), (2, 1)][i as usize / 6 % 2];
        let one = Cfg { chroma: 8, ..c };
        let c = Cfg { layers, channels, ..one };
        let planes = vec![gen::image(f, &one), gen::image((f + 3) % 24, &one)];
        l.describe(format_args!("{:?} family {}", c, f));
        check(&c, &planes, &[i % 2 == 0, i / 2 % 2 == 0], l)
    });
    // every combination of few settings
    let t = k.pick(4, 3); // the thorough tier goes without the triples of fine values
    gen::settings_of(&mut k, t, 6_000, &[(gen::DS, 0), (gen::PROG, 0)], |case, _, img, l| {
        let planes = split(img, case.c.plane(), &case.c);
        let chroma: Vec<bool> = (0..planes.len()).map(|p| gen::mix(p as u64 ^ case.family << 9 ^ (case.c.w as u64) << 20) % 2 == 0).collect();
        check(&case.c, &planes, &chroma, l)
    });
    k.finish()
}
