//! C05: features, thread counts and thresholds never change a result. This binary is built once per feature
//! set; each build is compared with the reference and thereby with each other.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen, oracle};

#[cfg(feature = "par")]
struct Pools(Vec<rayon::ThreadPool>);
#[cfg(feature = "par")]
impl Pools {
    fn new(sizes: &[usize]) -> Pools {
        Pools(sizes.iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect())
    }
    fn on<R: Send>(&self, i: usize, f: impl FnOnce() -> R + Send) -> R {
        self.0[i].install(f)
    }
}
#[cfg(not(feature = "par"))]
struct Pools;
#[cfg(not(feature = "par"))]
impl Pools {
    fn new(_: &[usize]) -> Pools {
        Pools
    }
    fn on<R>(&self, _: usize, f: impl FnOnce() -> R) -> R {
        f()
    }
}

fn both(img: &[u8], c: &Cfg, prog: &Prog, pools: &Pools, pool: usize, l: &mut Local) -> Res {
    let (w, n) = ref_stream(img, c, prog, false);
    let want = as_bytes(&w, n);
    // a panic inside of a pool comes out here again
    let s = pools.on(pool, || guarded(|| compress(img, c, &prog.build())))??;
    ensure!(s == want, "stream differs from the reference at {:?}", first_diff(&s, want));
    l.outcome(hash(&s));
    for ds in [0, 1] {
        if ds > c.max_ds() {
            continue;
        }
        let (dw, dh) = c.down(ds);
        let mut want = vec![0u8; dw * dh * c.planes()];
        assert_eq!(oracle::decompress(&w, n, ds, false, false, &mut want), 0);
        let (r, out) = pools.on(pool, || guarded(|| decompress(&s, ds)))??;
        ensure!(r == 0, "ds {} incomplete {}", ds, r);
        ensure!(out == want, "ds {} pixel {:?} differs from the reference", ds, first_diff(&out, &want));
        l.outcome(hash(&out));
    }
    l.op(3);
    l.trace(3);
    l.sample(|| format!("{:?} {:?} -> {} bytes", c, prog.ints(), n));
    Ok(())
}

fn main() {
    let mut k = Check::new("C05");
    let sizes = k.pick(vec![1usize, 2, 3, 8], vec![1, 2, 3, 4, 5, 6, 7, 8, 16]);
    let np = if cfg!(feature = "par") { sizes.len() } else { 1 };
    let pools = Pools::new(&sizes);
    if cfg!(feature = "par") {
        k.set_threads(3);
    }
    // every multithreading threshold: below, at and above, in several shapes
    let mut shapes: Vec<(u32, u32, u32, u32)> = vec![(1, 1, 1, 1), (2, 3, 1, 1), (9, 7, 1, 3), (16, 16, 2, 2)];
    for t in [64u32, 96, 128] {
        let a = t * t;
        shapes.extend([(t, t, 1, 1), (t - 1, t + 1, 1, 1), (t, t + 1, 1, 1), (t + 1, t, 1, 1), (t - 1, t, 1, 1)]);
        if k.thorough || t == 64 {
            shapes.extend([(a - 1, 1, 1, 1), (a, 1, 1, 1), (a + 1, 1, 1, 1), (1, a + 1, 1, 1), (1, a, 1, 1), (2, a / 2, 1, 1), (a / 2 + 1, 2, 1, 1)]);
        }
    }
    shapes.extend([(64, 64, 1, 4), (64, 64, 1, 5), (64, 65, 2, 2), (65, 64, 4, 1), (128, 128, 1, 2), (130, 70, 1, 3), (140, 139, 2, 2), (257, 129, 1, 1), (129, 300, 1, 3)]);
    let ns = shapes.len() as u64;
    k.section("thresholds", ns * 6 * 2 * np as u64 * k.pick(1, 3), |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(ns) as usize];
        let mut c = Cfg::new(s.0, s.1, s.2, s.3);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 150]);
        let pool = r.n(np as u64) as usize;
        c.block = [7, 3, 5][r.0 as usize];
        let prog = if c.planes() >= 3 && i % 2 == 0 { Prog::yuv() } else { Prog::none() };
        l.describe(format_args!("{:?} {:?} pool {}", c, prog.ints(), pool));
        both(&gen::image(4 + i % 3, &c), &c, &prog, &pools, pool, l)
    });
    let m = k.pick(12, 24);
    k.section("small-shapes", m * m * 6 * 2 * np as u64, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 150]);
        c.block = 2;
        let pool = r.n(np as u64) as usize;
        l.describe(format_args!("{:?} pool {}", c, pool));
        both(&gen::image(4, &c), &c, &Prog::none(), &pools, pool, l)
    });
    k.section("settings", 12 * 3 * 4 * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let s = gen::SHAPES[r.n(12) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(4) as u32 + 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 4, 7]);
        c.q = [1024, 400, 33][(i % 3) as usize];
        c.chroma = 1 + (i % 5) as u32 * 4;
        let lib = Prog::library(c.planes());
        let prog = &lib[i as usize % lib.len()];
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        both(&gen::image(4 + i % 12, &c), &c, prog, &pools, i as usize % np, l)
    });
    // the entry points that work on single planes
    k.section("planar", 8 * 6 * 2, |i, l| {
        let mut r = Radix(i);
        let s = [(65u32, 65u32), (64, 64), (130, 130), (128, 128), (97, 96), (96, 96), (200, 90), (90, 200)][r.n(8) as usize];
        let mut c = Cfg::new(s.0, s.1, 1, 2);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 150]);
        l.describe(format_args!("planar {:?}", c));
        let img = gen::image(4, &c);
        let (w, n) = ref_stream(&img, &c, &Prog::none(), false);
        let planar: Vec<u8> = (0..2).flat_map(|ch| img.iter().skip(ch).step_by(2).copied().collect::<Vec<_>>()).collect();
        let h = c.header();
        let mut aux = vec![0i16; c.pixels()];
        ColorTransformProgram::new().transform(&planar, &h, &mut aux);
        let mut buf = vec![0; c.cap()];
        let m = pools.on(0, || compress_aux_data(&mut aux, &h, &[false, false], &mut buf)).map_err(|e| format!("{:?}", e))?;
        ensure!(buf[..m] == as_bytes(&w, n)[36..], "planar payload differs from the reference");
        l.op(1);
        l.trace(1);
        Ok(())
    });
    // counts beyond 16 bits
    let huge = [(1u32, 70000u32), (3, 66000), (270000, 1), (300, 300), (66000, 3)];
    k.section("huge", 5 * 6 * 2 * 2, |i, l| {
        let mut r = Radix(i);
        let s = huge[r.n(5) as usize];
        let mut c = Cfg::new(s.0, s.1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[150, 1024]);
        c.block = r.of(&[7, 2]);
        l.describe(format_args!("{:?}", c));
        both(&gen::image(4 + i % 3, &c), &c, &Prog::none(), &pools, i as usize % np, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(240, 600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        both(&gen::image(f, &c), &c, &Prog::none(), &pools, i as usize / 6 % np, l)
    });
    // every number of threads, from outside of the pool, from inside, and from several of its threads at once
    #[cfg(feature = "par")]
    {
        let counts: Vec<usize> = (1..=20).chain([24, 31, 32, 33, 48, 63, 64, 65]).collect();
        let shapes = [(65u32, 65u32, 1u32, 1u32), (200, 150, 1, 3), (129, 128, 2, 2), (131, 61, 1, 7), (4097, 2, 1, 1), (3, 3001, 1, 2)];
        k.section("pools", (counts.len() * shapes.len()) as u64 * 3 * 2, |i, l| {
            use rayon::prelude::*;
            let mut r = Radix(i);
            let s = shapes[r.n(shapes.len() as u64) as usize];
            let enc = r.of(&ENCS);
            let way = r.n(2);
            let n = counts[r.0 as usize];
            let c = Cfg { enc, filter: (i / 3 % 2) as u8, q: [1024, 300][(i % 2) as usize], block: [2, 7, 4][(i % 3) as usize], ..Cfg::new(s.0, s.1, s.2, s.3) };
            let prog = if c.planes() >= 3 && i % 2 == 0 { Prog::yuv() } else { Prog::none() };
            l.describe(format_args!("{:?} {:?} {} threads, way {}", c, prog.ints(), n, way));
            let img = gen::image(4 + i % 3, &c);
            let own = Pools::new(&[n]);
            if way == 0 {
                return both(&img, &c, &prog, &own, 0, l);
            }
            let (w, len) = ref_stream(&img, &c, &prog, false);
            let want = as_bytes(&w, len);
            own.on(0, || {
                (0..4usize).into_par_iter().try_for_each(|j| -> Res {
                    let s = guarded(|| compress(&img, &c, &prog.build()))??;
                    ensure!(s == want, "operation {} of four at once: stream differs from the reference at {:?}", j, first_diff(&s, want));
                    let (r, out) = guarded(|| decompress(&s, 0))??;
                    ensure!(r == 0 && (c.q != 1024 || out == img), "operation {} of four at once: pixels differ", j);
                    Ok(())
                })
            })?;
            l.op(8);
            l.trace(8);
            Ok(())
        });
    }
    // every combination of few settings
    // the thorough tier goes without the triples of fine values
    let t = k.pick(4, 3);
    gen::settings_of(&mut k, t, 20_000, &[], |case, prog, img, l| both(img, &case.c, prog, &pools, (case.c.w + case.c.h) as usize % np, l));
    k.finish()
}
