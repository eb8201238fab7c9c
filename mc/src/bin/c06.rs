//! C06: size and previous contents of the output buffer never influence the stream.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

const CANARY: usize = 64;

/// One attempt with a buffer of `cap` bytes filled with `fill`, inside of guarded memory.
fn attempt(img: &[u8], c: &Cfg, prog: &ColorTransformProgram, cap: usize, fill: u8, mem: &mut Vec<u8>) -> Result<Option<usize>, String> {
    mem.clear();
    mem.resize(cap + 2 * CANARY, 0xE7);
    for (i, b) in mem[CANARY..CANARY + cap].iter_mut().enumerate() {
        *b = match fill {
            2 => gen::mix(i as u64) as u8,
            0 => 0,
            _ => 0xFF,
        };
    }
    let h = c.header();
    let r = guarded(|| compress_simple(img, &h, prog, &mut mem[CANARY..CANARY + cap]))?;
    ensure2(mem[..CANARY].iter().chain(&mem[CANARY + cap..]).all(|&b| b == 0xE7), || format!("memory outside of a buffer of {} bytes changed", cap))?;
    match r {
        Ok(n) => {
            ensure2(n <= cap, || format!("size {} reported for a buffer of {}", n, cap))?;
            Ok(Some(n))
        }
        Err(_) => Ok(None),
    }
}
fn ensure2(c: bool, f: impl FnOnce() -> String) -> Res {
    if c { Ok(()) } else { Err(f()) }
}

/// all sizes from 0 to `upto`, then some much larger ones
fn all_sizes(img: &[u8], c: &Cfg, prog: &Prog, fills: &[u8], l: &mut Local) -> Res {
    sizes(img, c, prog, fills, true, l)
}
/// sizes at and near all boundaries of the stream, then around the smallest that suffices, and some larger ones
fn some_sizes(img: &[u8], c: &Cfg, prog: &Prog, fills: &[u8], l: &mut Local) -> Res {
    sizes(img, c, prog, fills, false, l)
}
/// The cuts that get a try: all, or, of very many in a large image, evenly spaced ones (bounded work per case).
fn near(cuts: &[usize], c: &Cfg) -> Vec<usize> {
    let step = 1 + cuts.len() * c.pixels() / 40_000_000;
    cuts.iter().step_by(step).map(|p| p + 32).collect()
}
fn sizes(img: &[u8], c: &Cfg, prog: &Prog, fills: &[u8], every: bool, l: &mut Local) -> Res {
    let (w, n) = ref_stream(img, c, prog, false);
    let want = as_bytes(&w, n);
    let built = prog.build();
    let mut mem = vec![];
    for &fill in fills {
        let mut suffices: Option<usize> = None;
        let upto = (n * 3 + 64).max(600);
        let mut caps: Vec<usize> = if every { (0..upto).collect() } else { near(&layout(want, c, prog).cuts(n), c) };
        if !every {
            caps.extend((0..32).step_by(3));
            // the smallest that suffices, if there is one such
            let (mut no, mut yes) = (0, c.cap());
            while yes - no > 1 {
                let mid = (no + yes) / 2;
                match attempt(img, c, &built, mid, fill, &mut mem).map_err(|e| format!("buffer of {} bytes (needed {}): {}", mid, n, e))? {
                    Some(_) => yes = mid,
                    None => no = mid,
                }
            }
            caps.extend((yes.saturating_sub(6)..yes + 6).chain((1..20).map(|j| n + (yes.max(n) - n) * j / 10)).chain((1..20).map(|j| yes + (c.cap().max(yes) - yes) * j / 20)));
        }
        caps.extend([upto * 2 + 1, c.cap(), c.cap() + 3, c.cap() * 2 + 5]);
        caps.sort();
        caps.dedup();
        for cap in caps {
            let r = attempt(img, c, &built, cap, fill, &mut mem).map_err(|e| format!("buffer of {} bytes (needed {}): {}", cap, n, e))?;
            l.op(1);
            l.state(1);
            match r {
                Some(m) => {
                    let got = &mem[CANARY..CANARY + m];
                    ensure!(got == want, "buffer of {} bytes filled with {}: stream differs at {:?} of {} ({} bytes)", cap, fill, first_diff(got, want), n, m);
                    l.trace(1);
                    suffices.get_or_insert(cap);
                }
                None => ensure!(suffices.is_none(), "a buffer of {} bytes fails, one of {} was enough (stream {})", cap, suffices.unwrap(), n),
            }
        }
        ensure!(suffices.is_some(), "no size was enough");
        l.outcome(suffices.unwrap() as u64);
        l.sample(|| format!("{:?} {:?}: stream of {} bytes, all sizes to {}, smallest that suffices {}", c, prog.ints(), n, upto, suffices.unwrap()));
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C06");
    let m = k.pick(9, 14);
    k.section("all-shapes", m * m * 6 * 2 * 2, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7]);
        let f = r.of(&[4u64, 6]);
        c.q = [1024, 60][(i & 1) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        all_sizes(&gen::image(f, &c), &c, &Prog::none(), &[0, 1, 2], l)
    });
    let shapes = [(6u32, 6u32), (9, 5), (16, 3), (3, 20), (11, 12), (17, 17), (1, 40), (33, 6), (24, 24)];
    let ns = k.pick(5, 9);
    k.section("settings", ns * 3 * 4 * 3 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(ns) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(4) as u32 + 1);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 3, 7]);
        c.q = r.of(&[1024, 90]);
        c.filter = (i % 2) as u8;
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        let f = [4u64, 6, 13, 2][(i % 4) as usize];
        c.chroma = 4;
        l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
        all_sizes(&gen::image(f, &c), &c, prog, &[(i % 3) as u8], l)
    });
    // long programs that end near every buffer size
    k.section("long-programs", 40 * 3, |i, l| {
        let mut r = Radix(i);
        let steps = r.n(40) as usize;
        let c = Cfg { enc: r.of(&ENCS), ..Cfg::new(2, 2, 1, 3) };
        let prog = Prog((0..steps).map(|s| st(s % 3, &[((s + 1) % 3, 0), ((s + 2) % 3, 0)], 1 + s as i32 * 700, false)).collect());
        l.describe(format_args!("{:?} {} steps", c, steps));
        all_sizes(&gen::image(4, &c), &c, &prog, &[2], l)
    });
    // larger images
    let nm = k.pick(7, MANY.len() as u64);
    k.section("large", nm * 6 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (block, q) = (r.of(&[7, 2, 4]), r.of(&[1024, 100]));
        let s = MANY[r.n(nm) as usize];
        let c = Cfg { filter, enc, block, q, chroma: 4, ..Cfg::new(s.0, s.1, s.2, s.3) };
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        some_sizes(&gen::image([4, 6, 13][i as usize % 3], &c), &c, prog, &[(i % 3) as u8], l)
    });
    // planar entry point
    k.section("planar", 8 * 8 * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(8) as u32 + 1, r.n(8) as u32 + 1, 1, 2);
        c.enc = r.of(&ENCS);
        c.block = 2;
        l.describe(format_args!("planar {:?}", c));
        let h = c.header();
        let img = gen::image(4, &c);
        let mut full = vec![0u8; c.cap()];
        let planes = |aux: &mut Vec<i16>| {
            aux.clear();
            aux.resize(c.pixels(), 0);
            ColorTransformProgram::new().transform(&img, &h, aux);
        };
        let mut aux = vec![];
        planes(&mut aux);
        let n = compress_aux_data(&mut aux, &h, &[false, true], &mut full).map_err(|e| format!("{:?}", e))?;
        let mut ok = false;
        for cap in 0..n * 3 + 64 {
            planes(&mut aux);
            let mut mem = vec![0xE7u8; cap + 64];
            let r = guarded(|| compress_aux_data(&mut aux, &h, &[false, true], &mut mem[..cap])).map_err(|e| format!("buffer of {}: {}", cap, e))?;
            l.op(1);
            l.state(1);
            ensure!(mem[cap..].iter().all(|&b| b == 0xE7), "memory behind a buffer of {} changed", cap);
            match r {
                Ok(m) => {
                    ok = true;
                    ensure!(m == n && mem[..m] == full[..n], "buffer of {}: payload differs", cap);
                    l.trace(1);
                }
                Err(_) => ensure!(!ok, "a buffer of {} fails, a smaller one was enough", cap),
            }
        }
        Ok(())
    });
    // blocks of more than a megabyte of incompressible data, in buffers of any order of magnitude
    let dense = [(256u32, 256u32), (600, 500), (1100, 1200), (1700, 1300)];
    k.section("dense", k.pick(3, 4) * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let block = r.of(&[30, 9, 5]);
        let s = dense[r.0 as usize];
        let c = Cfg { filter, enc, block, ..Cfg::new(s.0, s.1, 1, 1) };
        l.describe(format_args!("{:?}", c));
        let img = gen::image(13, &c);
        let want = ref_stream(&img, &c, &Prog::none(), false);
        let want = &as_bytes(&want.0, want.1)[..];
        let built = Prog::none().build();
        let mut mem = vec![];
        let mut ok = None;
        for cap in [c.pixels() / 2, c.pixels(), c.pixels() * 2, c.pixels() * 4, c.pixels() * 8, c.pixels() * 16, 1 << 26] {
            match attempt(&img, &c, &built, cap, (i % 3) as u8, &mut mem)? {
                Some(m) => {
                    ensure!(mem[CANARY..CANARY + m] == *want, "buffer of {} bytes: stream differs at {:?}", cap, first_diff(&mem[CANARY..CANARY + m], want));
                    ok.get_or_insert(cap);
                }
                None => ensure!(ok.is_none(), "a buffer of {} bytes fails, one of {} was enough (stream {})", cap, ok.unwrap(), want.len()),
            }
            l.op(1);
            l.state(1);
        }
        ensure!(ok.is_some(), "no size was enough");
        l.trace(1);
        Ok(())
    });
    // buffers near and beyond 2^31 and 2^32 bytes (never touched as a whole)
    k.section("gigantic", 6 * 3 * 4, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let cap = r.of(&[1usize << 31, (1 << 32) - 5, 1 << 32, (1 << 32) + 40, (1 << 32) + 3_000, (5 << 30) + 1]);
        let shapes = [(9u32, 7u32, 1u32, 1u32), (40, 33, 1, 3), (5, 5, 2, 2), (70, 1, 1, 1)];
        let s = shapes[(i % 4) as usize];
        let c = Cfg { filter, enc, block: [2, 7, 4][(i % 3) as usize], ..Cfg::new(s.0, s.1, s.2, s.3) };
        l.describe(format_args!("{:?} buffer of {}", c, cap));
        let img = gen::image(4, &c);
        let want = ref_stream(&img, &c, &Prog::none(), false);
        let want = &as_bytes(&want.0, want.1)[..];
        let mut buf = vec![0u8; cap];
        let h = c.header();
        let n = guarded(|| compress_simple(&img, &h, &Prog::none().build(), &mut buf))?.map_err(|e| format!("{:?}", e))?;
        l.op(1);
        l.state(1);
        l.trace(1);
        ensure!(n == want.len() && buf[..n] == *want, "buffer of {} bytes: {} of {} bytes, difference at {:?}", cap, n, want.len(), first_diff(&buf[..n.min(want.len())], want));
        Ok(())
    });
    // header and program alone
    k.section("header-bytes", 64, |i, l| {
        let h = Cfg::new(5, 6, 2, 3).header();
        let mut full = vec![];
        h.encode(&mut full).map_err(|e| e.to_string())?;
        let mut buf = vec![0x11u8; i as usize];
        let r = guarded(|| {
            let mut b = &mut buf[..];
            h.encode(&mut b).map(|_| b.len())
        })?;
        l.op(1);
        match r {
            Ok(left) => ensure!(i as usize >= full.len() && left == i as usize - full.len() && buf[..full.len()] == full[..], "header in {} bytes", i),
            Err(_) => ensure!((i as usize) < full.len(), "header does not fit {} bytes", i),
        }
        Ok(())
    });
    // every combination of few settings
    gen::settings_of(&mut k, 3, 2_000, &[(gen::DS, 0)], |case, prog, img, l| some_sizes(img, &case.c, prog, &[(case.c.block % 3) as u8], l));
    k.finish()
}
