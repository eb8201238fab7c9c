//! C26: no call of the crate's interface touches memory outside the buffers it was given, whatever their lengths.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::gen;
use mc::guardmem::*;

/// The call may panic or fail; it may not touch anything else. What it did: 0 succeeded, 1 failed, 2 panicked.
fn call<R, E>(f: impl FnOnce() -> Result<R, E>, l: &mut Local) -> u64 {
    l.op(1);
    l.state(1);
    match guarded(f) {
        Ok(Ok(_)) => {
            l.count("succeeded", 1);
            0
        }
        Ok(Err(_)) => {
            l.count("failed", 1);
            1
        }
        Err(_) => {
            l.count("panicked", 1);
            2
        }
    }
}
fn intact<T: Copy + PartialEq + Default + 'static>(what: &str, g: &Guarded<T>) -> Res {
    if g.intact() { Ok(()) } else { Err(format!("memory next to {} was written", what)) }
}
/// lengths from 0 to `need` and a bit more; only those near multiples of a row if there are too many
fn lengths(need: usize, row: usize, max: usize) -> Vec<usize> {
    let extra = [need + 1, need + 2, need + row, need + row + 1, need * 2, need * 2 + 3];
    let mut v: Vec<usize> = if need <= max {
        (0..=need).collect()
    } else {
        let k = (need / row / (max / 6)).max(1);
        (0..=need).step_by(row * k).flat_map(|p| [p.saturating_sub(2), p.saturating_sub(1), p, p + 1, p + 2]).chain([need - 3, need - 2, need - 1, need]).filter(|&p| p <= need).collect()
    };
    v.extend(extra);
    v.sort();
    v.dedup();
    v
}
const SHAPES: [(u32, u32); 14] = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 3), (4, 5), (5, 4), (1, 9), (8, 8), (9, 7), (17, 3), (3, 20), (33, 17), (66, 65)];
const STRUCTS: [(u32, u32); 4] = [(1, 1), (1, 2), (2, 1), (1, 3)];

fn payload(c: &Cfg, chroma: &[bool], damage: u64) -> Vec<u8> {
    let prog = Prog(chroma.iter().enumerate().filter(|x| *x.1).map(|(p, _)| st(p, &[], 1, true)).collect());
    let (w, n) = ref_stream(&gen::image(4, c), c, &prog, false);
    let s = as_bytes(&w, n);
    let mut v = s[32 + layout(s, c, &prog).program..].to_vec();
    let n = v.len();
    match damage {
        1 => v.truncate(n - n / 3),
        2 => v[n / 2] ^= 0x55,
        3 => v.iter_mut().skip(n / 4).for_each(|b| *b = gen::mix(*b as u64) as u8),
        _ => {}
    }
    v
}

fn main() {
    let mut k = Check::new("C26");
    let ns = SHAPES.len() as u64;
    let max = k.pick(160, 900);
    // planes of any length, marks of any number, streams sound and damaged
    k.section("decompress-planes", ns * 4 * 6 * 4 * 2, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (damage, side) = (r.n(4), r.of(&SIDES));
        let (layers, channels) = r.of(&STRUCTS);
        let (w, h) = SHAPES[r.n(ns) as usize];
        let c = Cfg { filter, enc, block: [2, 3, 7][i as usize % 3], q: [1024, 100][i as usize / 3 % 2], chroma: 4, ..Cfg::new(w, h, layers, channels) };
        let marks: Vec<bool> = (0..c.planes() + 3).map(|p| p % 2 == 1).collect();
        let data = payload(&c, &marks[..c.planes()], damage);
        let hd = c.header();
        for ds in 0..=c.max_ds() + 1 {
            let (dw, dh) = c.down(ds);
            for len in lengths(dw * dh * c.planes(), dw, max) {
                for nm in [c.planes(), 0, c.planes() - 1, c.planes() + 1, c.planes() + 3] {
                    let test = (len + nm) % 5 == 0;
                    l.describe(format_args!("{:?} damage {} ds {}: {} samples of {}, {} marks, {:?}", c, damage, ds, len, dw * dh * c.planes(), nm, side));
                    let mut d = Guarded::new(data.len(), side, |j| data[j]);
                    let mut m = Guarded::new(nm, side, |j| marks[j]);
                    let mut aux = Guarded::new(len, side, |j| gen::mix(j as u64) as i16);
                    let o = call(|| decompress_aux_data(d.get(), &hd, m.get(), ds, test, aux.get()), l);
                    l.outcome(hash(&[o as u8, w as u8, h as u8, ds as u8, (len * 7 / (dw * dh * c.planes())) as u8, damage as u8, nm as u8]));
                    intact("the planes", &aux)?;
                    intact("the data", &d)?;
                    intact("the marks", &m)?;
                    if damage == 0 && len >= dw * dh * c.planes() && nm == c.planes() && ds <= c.max_ds() && o != 0 {
                        return Err("fails with buffers that are large enough".into());
                    }
                }
            }
        }
        l.trace(1);
        Ok(())
    });
    k.section("compress-planes", ns * 4 * 6 * 2, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let side = r.of(&SIDES);
        let (layers, channels) = r.of(&STRUCTS);
        let (w, h) = SHAPES[r.n(ns) as usize];
        let c = Cfg { filter, enc, block: [2, 3, 7][i as usize % 3], q: [1024, 100][i as usize / 3 % 2], chroma: 4, ..Cfg::new(w, h, layers, channels) };
        let hd = c.header();
        let need = c.pixels();
        for len in lengths(need, w as usize, max) {
            for nm in [c.planes(), 0, c.planes() - 1, c.planes() + 1, c.planes() + 3] {
                for cap in [c.cap(), need, 64, 7, 0] {
                    l.describe(format_args!("{:?}: {} samples of {}, {} marks, buffer of {}, {:?}", c, len, need, nm, cap, side));
                    let mut m = Guarded::new(nm, side, |j| j % 2 == 1);
                    let mut aux = Guarded::new(len, side, |j| (gen::mix(j as u64) % 511) as i16 - 255);
                    let mut out = Guarded::new(cap, side, |_| 0u8);
                    let o = call(|| compress_aux_data(aux.get(), &hd, m.get(), out.get()), l);
                    l.outcome(hash(&[o as u8, w as u8, h as u8, (len * 7 / need) as u8, nm as u8, (cap % 251) as u8]));
                    intact("the planes", &aux)?;
                    intact("the marks", &m)?;
                    intact("the buffer", &out)?;
                    if len >= need && nm == c.planes() && cap == c.cap() && o != 0 {
                        return Err("fails with buffers that are large enough".into());
                    }
                }
            }
        }
        l.trace(1);
        Ok(())
    });
    // the one-call interface
    let lib: Vec<Vec<Prog>> = (1..=3).map(Prog::library).collect();
    k.section("compress-simple", ns * 4 * 6 * 2 * 3, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (side, pn) = (r.of(&SIDES), r.n(3));
        let (layers, channels) = r.of(&STRUCTS);
        let (w, h) = SHAPES[r.n(ns) as usize];
        let c = Cfg { filter, enc, block: [2, 3, 7][i as usize % 3], q: [1024, 100][i as usize / 3 % 2], chroma: 4, ..Cfg::new(w, h, layers, channels) };
        // programs may also name channels that the image does not have
        let lib = &lib[if pn == 2 { 2 } else { c.planes() - 1 }];
        let prog = &lib[(i as usize / 7 * 5 + pn as usize) % lib.len()];
        let built = prog.build();
        let hd = c.header();
        for len in lengths(c.pixels(), w as usize, max) {
            for cap in [c.cap() + 400, c.pixels(), 50, 3] {
                l.describe(format_args!("{:?} {:?}: {} samples of {}, buffer of {}, {:?}", c, prog.ints(), len, c.pixels(), cap, side));
                let mut img = Guarded::new(len, side, |j| gen::mix(j as u64) as u8);
                let mut out = Guarded::new(cap, side, |_| 0u8);
                let o = call(|| compress_simple(img.get(), &hd, &built, out.get()), l);
                l.outcome(hash(&[o as u8, w as u8, h as u8, (len * 7 / c.pixels()) as u8, (cap % 251) as u8, pn as u8]));
                intact("the image", &img)?;
                intact("the buffer", &out)?;
            }
        }
        l.trace(1);
        Ok(())
    });
    k.section("decompress-simple", ns * 4 * 6 * 2 * 4, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (side, damage) = (r.of(&SIDES), r.n(4));
        let (layers, channels) = r.of(&STRUCTS);
        let (w, h) = SHAPES[r.n(ns) as usize];
        let c = Cfg { filter, enc, block: [2, 3, 7][i as usize % 3], q: [1024, 100][i as usize / 3 % 2], chroma: 4, ..Cfg::new(w, h, layers, channels) };
        let lib = &lib[c.planes() - 1];
        let prog = &lib[(i as usize / 7 * 5) % lib.len()];
        let (s, n) = ref_stream(&gen::image(4, &c), &c, prog, false);
        let mut data = as_bytes(&s, n)[32..].to_vec();
        let n = data.len();
        match damage {
            1 => data.truncate(n - n / 3),
            2 => data[n / 3] ^= 0x41,
            3 => data.iter_mut().skip(n / 4).for_each(|b| *b = gen::mix(*b as u64) as u8),
            _ => {}
        }
        let hd = c.header();
        for ds in 0..=c.max_ds() + 1 {
            let (dw, dh) = c.down(ds);
            for len in lengths(dw * dh * c.planes(), dw, max) {
                l.describe(format_args!("{:?} {:?} damage {} ds {}: {} bytes of {}, {:?}", c, prog.ints(), damage, ds, len, dw * dh * c.planes(), side));
                let mut d = Guarded::new(data.len(), side, |j| data[j]);
                let mut out = Guarded::new(len, side, |_| 0u8);
                let o = call(|| decompress_simple(d.get(), &hd, ds, len % 7 == 3, out.get()), l);
                l.outcome(hash(&[o as u8, w as u8, h as u8, ds as u8, (len * 7 / (dw * dh * c.planes())) as u8, damage as u8]));
                intact("the output", &out)?;
                intact("the data", &d)?;
                if damage == 0 && len >= dw * dh * c.planes() && ds <= c.max_ds() && o != 0 {
                    return Err("fails with buffers that are large enough".into());
                }
            }
        }
        l.trace(1);
        Ok(())
    });
    // images of one header, streams of another, programs of a third
    k.section("foreign", 14 * 14 * 4 * 4 * 3, |i, l| {
        let mut r = Radix(i);
        let enc = r.of(&ENCS);
        let (a, b) = (r.of(&STRUCTS), r.of(&STRUCTS));
        let (sa, sb) = (r.of(&SHAPES), r.of(&SHAPES));
        let ca = Cfg { enc, block: [2, 7][i as usize % 2], ..Cfg::new(sa.0, sa.1, a.0, a.1) };
        let cb = Cfg { enc: [0, 1, 2][i as usize / 2 % 3], block: [2, 7, 3][i as usize / 6 % 3], q: [1024, 100][i as usize % 2], filter: (i / 3 % 2) as u8, ..Cfg::new(sb.0, sb.1, b.0, b.1) };
        let lib = &lib[ca.planes() - 1];
        let prog = &lib[i as usize / 5 % lib.len()];
        let (s, n) = ref_stream(&gen::image(4, &ca), &ca, prog, false);
        let data = &as_bytes(&s, n)[32..];
        let hd = cb.header();
        l.describe(format_args!("stream of {:?} {:?} with the header of {:?}", ca, prog.ints(), cb));
        for side in SIDES {
            for ds in 0..=cb.max_ds() {
                let mut d = Guarded::new(data.len(), side, |j| data[j]);
                let mut out = Guarded::new(hd.get_decompress_buffer_size(ds), side, |_| 0u8);
                let o = call(|| decompress_simple(d.get(), &hd, ds, false, out.get()), l);
                l.outcome(hash(&[o as u8, sa.0 as u8, sa.1 as u8, sb.0 as u8, sb.1 as u8, ds as u8]));
                intact("the output", &out)?;
                intact("the data", &d)?;
            }
        }
        l.trace(1);
        Ok(())
    });
    // color programs and layout conversion
    let m = k.pick(14u64, 22);
    k.section("transform", 4 * 3 * m * m * 14, |i, l| {
        let mut r = Radix(i);
        let (layers, channels) = r.of(&STRUCTS);
        let (w, h) = r.of(&[(1u32, 1u32), (2, 1), (3, 2)]);
        let (n, na) = (r.n(m) as usize, r.n(m) as usize);
        let p = r.n(14) as usize;
        let prog = &lib[2][p % lib[2].len()];
        let c = Cfg { q: [1024, 100][i as usize % 2], ..Cfg::new(w, h, layers, channels) };
        let built = prog.build();
        let hd = c.header();
        for side in SIDES {
            for cs in [c.plane(), 0, c.plane() + 1, c.plane() * 2, 1] {
                for what in 0..4 {
                    l.describe(format_args!("{:?} {:?}: {} samples, planes of {} samples, size {}, call {}, {:?}", c, prog.ints(), n, na, cs, what, side));
                    let mut img = Guarded::new(n, side, |j| gen::mix(j as u64) as u8);
                    let mut aux = Guarded::new(na, side, |j| (gen::mix(j as u64) % 2040) as i16);
                    if what < 2 && cs != c.plane() {
                        continue;
                    }
                    let o = call(|| -> Result<(), ()> {
                        match what {
                            0 => built.transform(img.get(), &hd, aux.get()),
                            1 => built.transform_and_to_planar(img.get(), &hd, aux.get()),
                            2 => built.detransform(aux.get(), &hd, cs, img.get()),
                            _ => built.detransform_and_to_interleaved(aux.get(), &hd, cs, img.get()),
                        }
                        Ok(())
                    }, l);
                    l.outcome(hash(&[o as u8, n as u8, na as u8, what as u8, c.planes() as u8, cs as u8]));
                    intact("the samples", &img)?;
                    intact("the planes", &aux)?;
                }
            }
        }
        l.trace(1);
        Ok(())
    });
    k.section("conversion", 7 * 30 * 30 * 5, |i, l| {
        let mut r = Radix(i);
        let channels = r.n(7) as usize;
        let (n, na) = (r.n(30) as usize, r.n(30) as usize);
        let skip: &[usize] = [&[][..], &[0], &[1], &[0, 2], &[5, 9, 0, 1]][r.n(5) as usize];
        for side in SIDES {
            for back in [false, true] {
                l.describe(format_args!("{} samples, planes of {} samples, {} channels without {:?}, back {}, {:?}", n, na, channels, skip, back, side));
                let mut img = Guarded::new(n, side, |j| gen::mix(j as u64) as u8);
                let mut aux = Guarded::new(na, side, |j| (gen::mix(j as u64) % 2040) as i16);
                let o = call(|| -> Result<(), ()> {
                    if back {
                        planar_to_interleaved(aux.get(), channels, 8, img.get(), skip);
                    } else {
                        interleaved_to_planar(img.get(), channels, 8, aux.get(), skip);
                    }
                    Ok(())
                }, l);
                l.outcome(hash(&[o as u8, n as u8, na as u8, channels as u8, skip.len() as u8, back as u8]));
                intact("the samples", &img)?;
                intact("the planes", &aux)?;
            }
        }
        l.trace(1);
        Ok(())
    });
    k.finish()
}
