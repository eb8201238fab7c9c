//! C10: probing a stream agrees with decoding it and has no side effects.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

struct Bufs {
    real: Vec<u8>,
    probe: Vec<u8>,
}

/// one piece of data, probed and decoded
fn compare(h: &Header, ds: usize, data: &[u8], fill: u8, b: &mut Bufs, l: &mut Local) -> Res {
    let size = h.get_decompress_buffer_size(ds);
    b.real.clear();
    b.real.resize(size, 0);
    b.probe.clear();
    b.probe.extend((0..size).map(|i| if fill == 1 { gen::mix(i as u64) as u8 } else { fill }));
    let real = guarded(|| decompress_simple(data, h, ds, false, &mut b.real));
    let probe = guarded(|| decompress_simple(data, h, ds, true, &mut b.probe)).map_err(|e| format!("probe {}", e))?;
    l.op(2);
    l.state(1);
    for (i, &v) in b.probe.iter().enumerate() {
        ensure!(v == if fill == 1 { gen::mix(i as u64) as u8 } else { fill }, "probing changed sample {} of the output", i);
    }
    if let Ok(Ok(n)) = real {
        match probe {
            Ok(m) => ensure!(n == m, "decoding returns {}, probing {}", n, m),
            Err(e) => return Err(format!("decoding returns {}, probing fails: {:?}", n, e)),
        }
        l.trace(1);
        l.outcome(n as u64);
        l.count(if n == 0 { "complete" } else { "incomplete" }, 1);
    } else {
        l.count("rejected", 1);
    }
    Ok(())
}
/// the planar entry point
fn compare_aux(h: &Header, chroma: &[bool], ds: usize, data: &[u8], l: &mut Local) -> Res {
    let size = h.get_downsampled_image_size(ds);
    let mut real = vec![0i16; size];
    let fill: Vec<i16> = (0..size).map(|i| gen::mix(i as u64) as i16).collect();
    let mut probe = fill.clone();
    let r = guarded(|| decompress_aux_data(data, h, chroma, ds, false, &mut real));
    let p = guarded(|| decompress_aux_data(data, h, chroma, ds, true, &mut probe)).map_err(|e| format!("probe {}", e))?;
    l.op(2);
    ensure!(probe == fill, "probing changed planar sample {:?}", first_diff(&probe, &fill));
    if let Ok(Ok(n)) = r {
        match p {
            Ok(m) => ensure!(n == m, "planar: decoding returns {}, probing {}", n, m),
            Err(e) => return Err(format!("planar: decoding returns {}, probing fails: {:?}", n, e)),
        }
        l.trace(1);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C10");
    let m = k.pick(9, 16);
    k.section("prefixes-of-all-shapes", m * m * 3 * 2 * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7]);
        c.q = r.of(&[1024, 100, 7]);
        c.filter = (i % 2) as u8;
        let f = [4u64, 6, 13, 0][(i % 4) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        let (w, n) = ref_stream(&gen::image(f, &c), &c, &Prog::none(), false);
        let s = as_bytes(&w, n);
        let h = c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for ds in 0..=c.max_ds() {
            for p in 32..=s.len() {
                compare(&h, ds, &s[32..p], [0, 1, 255][p % 3], &mut b, l).map_err(|e| format!("prefix {} ds {}: {}", p, ds, e))?;
                // the program of a single channel without transform is one word
                if p >= 36 {
                    compare_aux(&h, &[false], ds, &s[36..p], l).map_err(|e| format!("prefix {} ds {}: {}", p, ds, e))?;
                }
            }
        }
        Ok(())
    });
    let shapes = [(6u32, 6u32), (9, 5), (16, 3), (3, 20), (11, 12), (17, 17), (1, 40), (33, 6), (24, 24)];
    let ns = k.pick(6, 9);
    k.section("prefixes-of-settings", ns * 3 * 4 * 3 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(ns) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(4) as u32 + 1);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 3, 7]);
        c.q = r.of(&[1024, 90]);
        c.filter = (i % 2) as u8;
        c.chroma = 4;
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        let f = [4u64, 6, 13, 2][(i % 4) as usize];
        l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
        let (w, n) = ref_stream(&gen::image(f, &c), &c, prog, false);
        let mut s = as_bytes(&w, n).to_vec();
        s.extend((0..23).map(|i| gen::mix(i) as u8));
        let h = c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for ds in [0, 1 + (i as usize % 3).min(c.max_ds() - 1)] {
            for p in 32..=s.len() {
                compare(&h, ds, &s[32..p], [0, 1, 255][p % 3], &mut b, l).map_err(|e| format!("prefix {} ds {}: {}", p, ds, e))?;
            }
        }
        l.sample(|| format!("{:?} {:?}: all prefixes of {} bytes", c, prog.ints(), s.len()));
        Ok(())
    });
    // larger images, cut at and near every boundary
    let nm = k.pick(7, MANY.len() as u64);
    k.section("prefixes-of-large", nm * 6 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (block, q) = (r.of(&[7, 2, 4]), r.of(&[1024, 100]));
        let s = MANY[r.n(nm) as usize];
        let c = Cfg { filter, enc, block, q, chroma: 4, ..Cfg::new(s.0, s.1, s.2, s.3) };
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        let (w, n) = ref_stream(&gen::image([4, 6, 13][i as usize % 3], &c), &c, prog, false);
        let mut s = as_bytes(&w, n).to_vec();
        let cuts = layout(&s, &c, prog).cuts(n + 23);
        s.extend((0..23).map(|i| gen::mix(i) as u8));
        let h = c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for ds in [0, 1, c.max_ds() / 2] {
            // fewer of them where each takes long
            let every = 1 + cuts.len() * c.pixels() / 100_000_000;
            for &p in cuts.iter().filter(|&&p| p + 32 <= s.len()).skip(ds % every).step_by(every) {
                compare(&h, ds, &s[32..32 + p], [0, 1, 255][p % 3], &mut b, l).map_err(|e| format!("prefix {} ds {}: {}", p, ds, e))?;
            }
        }
        Ok(())
    });
    // changed bytes: whatever decoding still accepts, probing must tell the same
    let vals = k.pick(24, 255);
    k.section("changed-bytes", 7 * 3 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(7) as usize];
        let mut c = Cfg::new(s.0.min(12), s.1.min(12), 1, 3);
        c.enc = r.of(&ENCS);
        c.q = r.of(&[1024, 60, 5]);
        c.block = r.of(&[2, 7]);
        c.chroma = 6;
        let lib = Prog::library(3);
        let prog = &lib[(i as usize / 2) % lib.len()];
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        let (w, n) = ref_stream(&gen::image(6, &c), &c, prog, false);
        let mut d = as_bytes(&w, n)[32..].to_vec();
        let h = c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for p in 0..d.len() {
            let old = d[p];
            for v in 0..vals {
                // single bit changes first, then others
                d[p] = if v < 8 { old ^ (1 << v) } else { old.wrapping_add((v - 7) as u8) };
                compare(&h, (v as usize + p) % (c.max_ds() + 1), &d, 7, &mut b, l).map_err(|e| format!("byte {} is {}: {}", p, d[p], e))?;
                if p % 4 == 0 {
                    let cut = d.len() - (d.len() - p) / 3;
                    compare(&h, 0, &d[..cut], 7, &mut b, l).map_err(|e| format!("byte {} is {}, cut at {}: {}", p, d[p], cut, e))?;
                }
            }
            d[p] = old;
        }
        Ok(())
    });
    // size tables with every class of value
    k.section("size-tables", 6 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(6) as usize];
        let mut c = Cfg::new(s.0, s.1, 1, 2);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7]);
        let prog = Prog(vec![st(0, &[(1, -1)], 1, true)]);
        l.describe(format_args!("{:?}", c));
        let (w, n) = ref_stream(&gen::image(4, &c), &c, &prog, false);
        let s = as_bytes(&w, n);
        let lay = layout(s, &c, &prog);
        let mut d = s[32..].to_vec();
        let h = c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for v in &lay.levels {
            for p in (v.1..v.2).step_by(4) {
                let old: [u8; 4] = d[p..p + 4].try_into().unwrap();
                let o = u32::from_le_bytes(old);
                for x in [0, 1, 2, o + 1, o.wrapping_sub(1), o * 2, d.len() as u32 / 4, 0x100, 0xffff, 0x3fff_ffff, 0x4000_0000, 0xffff_ffff] {
                    d[p..p + 4].copy_from_slice(&x.to_le_bytes());
                    for e in (p..=d.len()).step_by(2) {
                        compare(&h, e / 2 % (c.max_ds() + 1), &d[..e], 7, &mut b, l).map_err(|er| format!("size at {} is {}, cut at {}: {}", p, x, e, er))?;
                    }
                }
                d[p..p + 4].copy_from_slice(&old);
            }
        }
        Ok(())
    });
    // every combination of few settings
    gen::settings_of(&mut k, 3, 2_000, &[], |case, prog, img, l| {
        let (w, n) = ref_stream(img, &case.c, prog, false);
        let s = as_bytes(&w, n);
        let lay = layout(s, &case.c, prog);
        let h = case.c.header();
        let mut b = Bufs { real: vec![], probe: vec![] };
        for p in lay.cuts(n) {
            if p <= n - 32 {
                compare(&h, case.ds, &s[32..32 + p], [0, 1, 255][p % 3], &mut b, l).map_err(|e| format!("prefix {}: {}", p, e))?;
                if p >= lay.program {
                    compare_aux(&h, &prog.chroma(case.c.planes()), case.ds, &s[32 + lay.program..32 + p], l).map_err(|e| format!("payload up to {}: {}", p, e))?;
                }
            }
        }
        Ok(())
    });
    k.finish()
}
