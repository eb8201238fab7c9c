//! C24: what surrounds a stream and what lies in the buffers beforehand never matters; buffer sizes are as documented.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

/// a buffer with `n` bytes of room at any address, filled with `fill`
fn room(n: usize, extra: usize, shift: usize, fill: u8) -> Vec<u8> {
    let mut v = vec![fill; n + extra + shift];
    for (i, b) in v.iter_mut().enumerate() {
        if fill == 1 {
            *b = gen::mix(i as u64) as u8;
        }
    }
    v
}

/// decodes the stream (or a prefix) into differently sized, filled and aligned buffers
fn buffers(s: &[u8], ds: usize, l: &mut Local) -> Res {
    let mut r = s;
    let h = Header::decode(&mut r).map_err(|e| format!("{:?}", e))?;
    let n = h.get_decompress_buffer_size(ds);
    let mut want = vec![0u8; n];
    let first = decompress_simple(r, &h, ds, false, &mut want).map_err(|_| ());
    l.op(1);
    for (extra, shift, fill) in [(0, 0, 0xFF), (0, 1, 0xA5), (1, 0, 0), (7, 3, 0xFF), (64, 5, 1), (n, 2, 1), (4099, 0, 0x80)] {
        let mut b = room(n, extra, shift, fill);
        let before = b.clone();
        // the same stream at another address
        let mut moved = vec![0u8; shift];
        moved.extend_from_slice(r);
        let got = decompress_simple(&moved[shift..], &h, ds, false, &mut b[shift..]).map_err(|_| ());
        l.op(1);
        l.trace(1);
        ensure!(got == first, "buffer of {} with {} at {}: returns {:?} instead of {:?}", n + extra, fill, shift, got, first);
        ensure!(b[..shift] == before[..shift] && b[shift + n..] == before[shift + n..], "buffer of {} more bytes: bytes around the image change", extra);
        if first.is_ok() {
            ensure!(b[shift..shift + n] == want[..], "buffer of {} with {} at {}: pixel {:?} differs", n + extra, fill, shift, first_diff(&b[shift..shift + n], &want));
        }
    }
    l.outcome(hash(&want));
    Ok(())
}

fn main() {
    let mut k = Check::new("C24");
    let thorough = k.thorough;
    let progs = Prog::library(3);
    // streams in buffers of more than 2^31 and 2^32 bytes, images in such buffers (which are not touched as a whole)
    k.section("gigantic", 6 * 3 * 4, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let cap = r.of(&[1usize << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 32) + 200, (1 << 32) + 100_000]);
        let shapes = [(9u32, 7u32, 1u32, 1u32), (40, 33, 1, 3), (5, 5, 2, 2), (70, 1, 1, 1)];
        let s = shapes[(i % 4) as usize];
        let c = Cfg { filter, enc, q: [1024, 300][(i / 2 % 2) as usize], block: [2, 7, 4][(i % 3) as usize], ..Cfg::new(s.0, s.1, s.2, s.3) };
        l.describe(format_args!("{:?} buffers of {}", c, cap));
        let s = compress(&gen::image(4, &c), &c, &Prog::none().build())?;
        let h = c.header();
        for ds in 0..=c.max_ds() {
            let n = h.get_decompress_buffer_size(ds);
            let mut want = vec![0u8; n];
            decompress_simple(&s[32..], &h, ds, false, &mut want).map_err(|e| format!("{:?}", e))?;
            let mut big = vec![0u8; cap];
            big[..s.len()].copy_from_slice(&s);
            let mut got = vec![0u8; n];
            let r = guarded(|| decompress_simple(&big[32..], &h, ds, false, &mut got))?.map_err(|e| format!("{:?}", e))?;
            ensure!(r == 0 && got == want, "ds {}: stream in {} bytes: {} {:?}", ds, cap, r, first_diff(&got, &want));
            let r = guarded(|| decompress_simple(&big[32..], &h, ds, true, &mut got))?.map_err(|e| format!("{:?}", e))?;
            ensure!(r == 0 && got == want, "ds {}: probing a stream in {} bytes: {}", ds, cap, r);
            big[..s.len()].fill(0);
            let r = guarded(|| decompress_simple(&s[32..], &h, ds, false, &mut big))?.map_err(|e| format!("{:?}", e))?;
            ensure!(r == 0 && big[..n] == want[..] && big[n..n + 5000].iter().all(|&b| b == 0), "ds {}: image in {} bytes: {} {:?}", ds, cap, r, first_diff(&big[..n], &want));
            l.op(3);
            l.trace(3);
            l.state(1);
        }
        Ok(())
    });
    // every stream, every prefix
    let m = k.pick(14, 26);
    k.section("prefixes", m * m * 6 * 4, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let kind = r.n(4) as usize;
        let c = Cfg { filter, enc, q: [1024, 300, 1024, 40][kind], block: [7, 2, 2, 3][kind], chroma: 8, ..Cfg::new(w, h, [1, 1, 2, 1][kind], [1, 3, 1, 3][kind]) };
        let prog = [Prog::none(), Prog::yuv(), Prog::none(), Prog::a710_rgb()][kind].clone();
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        l.sample(|| format!("{:?}", c));
        let s = compress(&gen::image([4, 2, 13, 7][kind], &c), &c, &prog.build())?;
        for ds in 0..=c.max_ds() {
            buffers(&s, ds, l)?;
            let step = if thorough || s.len() < 150 { 1 } else { 5 };
            for cut in (32..s.len()).step_by(step) {
                if cut % 4 == 0 || (cut + i as usize) % 7 == 0 {
                    buffers(&s[..cut], ds, l)?;
                    l.state(1);
                }
            }
        }
        Ok(())
    });
    // anything may follow a stream
    let m = k.pick(20u64, 40);
    k.section("followers", m * m * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let kind = r.n(3) as usize;
        let c = Cfg { filter, enc, q: [1024, 200, 1024][kind], block: [2, 7, 3][kind], chroma: 3, ..Cfg::new(w, h, [1, 1, 3][kind], [1, 3, 2][kind]) };
        let prog = [Prog::none(), Prog::a710_bgr(), Prog(vec![st(5, &[(0, -1)], 1, true)])][kind].clone();
        l.describe(format_args!("{:?}", c));
        let s = compress(&gen::image([13, 4, 2][kind], &c), &c, &prog.build())?;
        let wants: Vec<(usize, Vec<u8>)> = (0..=c.max_ds()).map(|ds| decompress(&s, ds)).collect::<Result<_, _>>()?;
        for n in (1..12).chain([16, 31, 64, 1000, 1024, 5000]) {
            for fill in [0u8, 0xFF, 1] {
                let mut t = s.clone();
                t.extend(room(n, 0, 0, fill));
                for ds in 0..=c.max_ds() {
                    let got = decompress(&t, ds)?;
                    l.op(1);
                    l.trace(1);
                    ensure!(got == wants[ds], "{} bytes of {} behind the stream change the result at ds {}: {} instead of {}, pixel {:?}", n, fill, ds, got.0, wants[ds].0, first_diff(&got.1, &wants[ds].1));
                }
                l.state(1);
            }
        }
        // another stream follows
        let mut t = s.clone();
        t.extend_from_slice(&s);
        for ds in 0..=c.max_ds() {
            ensure!(decompress(&t, ds)? == wants[ds], "a second stream behind the first changes the result at ds {}", ds);
            ensure!(wants[ds].0 == 0, "complete stream, ds {}: {}", ds, wants[ds].0);
        }
        l.outcome(hash(&s));
        Ok(())
    });
    // the samples that a low-level decoder is given to overwrite do not matter for a complete stream
    k.section("stale-samples", m * m * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let kind = r.n(3) as usize;
        let c = Cfg { filter, enc, q: [1024, 100, 700][kind], block: [2, 7, 4][kind], chroma: 5, ..Cfg::new(w, h, [1, 2, 1][kind], [1, 2, 3][kind]) };
        let chroma: Vec<bool> = (0..c.planes()).map(|p| p % 2 == 1).collect();
        let hd = c.header();
        l.describe(format_args!("{:?}", c));
        for family in [0, 6, 13] {
            let mut planes: Vec<i16> = gen::image(family, &c).iter().map(|&v| i16::from(v) * c.boost() as i16).collect();
            let mut out = vec![0; c.cap()];
            let n = compress_aux_data(&mut planes, &hd, &chroma, &mut out).map_err(|e| format!("{:?}", e))?;
            l.op(1);
            for ds in 0..=c.max_ds() {
                let size = hd.get_downsampled_image_size(ds);
                let mut want = vec![0i16; size];
                let r = decompress_aux_data(&out[..n], &hd, &chroma, ds, false, &mut want).map_err(|e| format!("{:?}", e))?;
                for (j, fill) in [-1i16, i16::MAX, i16::MIN, 1, 0x55].into_iter().enumerate() {
                    let mut a: Vec<i16> = (0..size).map(|x| if j == 3 { gen::mix(x as u64) as i16 } else { fill }).collect();
                    let r2 = decompress_aux_data(&out[..n], &hd, &chroma, ds, false, &mut a).map_err(|e| format!("{:?}", e))?;
                    l.op(1);
                    l.trace(1);
                    l.state(1);
                    ensure!(r2 == r && a == want, "samples {} beforehand change the result at ds {}: {:?}", fill, ds, first_diff(&a, &want));
                }
            }
        }
        Ok(())
    });
    // nor does what the output of compression holds, or where it and the image lie
    k.section("compression", m * m * 6 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let kind = r.n(3) as usize;
        let c = Cfg { filter, enc, q: [1024, 100, 700][kind], block: [2, 7, 4][kind], chroma: 5, ..Cfg::new(w, h, [1, 2, 1][kind], [1, 2, 3][kind]) };
        let prog = progs[i as usize % progs.len()].clone();
        let prog = if prog.planes_needed() > c.planes() { Prog::none() } else { prog };
        let img = gen::image(4, &c);
        let hd = c.header();
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        let want = compress(&img, &c, &prog.build())?;
        for (extra, shift, fill) in [(0, 1, 0xFFu8), (1, 2, 0xA5), (5, 3, 1), (3, 0, 0x80), (40000, 7, 1)] {
            let mut b = room(c.cap(), extra, shift, fill);
            let before = b.clone();
            let mut moved = vec![0u8; shift];
            moved.extend_from_slice(&img);
            let n = compress_simple(&moved[shift..], &hd, &prog.build(), &mut b[shift..]).map_err(|e| format!("{:?}", e))?;
            l.op(1);
            l.trace(1);
            ensure!(b[shift..shift + n] == want[..], "buffer of {} more bytes with {} at {}: other bytes at {:?}", extra, fill, shift, first_diff(&b[shift..shift + n], &want));
            ensure!(b[..shift] == before[..shift], "bytes before the buffer change");
        }
        l.outcome(hash(&want));
        Ok(())
    });
    // large images
    k.section("large", gen::HUGE.len() as u64 * 6, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let s = gen::HUGE[r.0 as usize];
        if s.0 as u64 * s.1 as u64 > 5_000_000 && !thorough {
            return l.skip();
        }
        let c = Cfg { filter, enc, q: 300, ..Cfg::new(s.0, s.1, 1, 1) };
        l.describe(format_args!("{:?}", c));
        let s = compress(&gen::image(6, &c), &c, &ColorTransformProgram::new())?;
        for ds in [0, 3] {
            if ds <= c.max_ds() {
                buffers(&s, ds, l)?;
                buffers(&s[..s.len() / 2], ds, l)?;
            }
        }
        Ok(())
    });
    // sizes
    let side = k.pick(300u64, 2000);
    k.section("sizes", side, |i, l| {
        for h in 1..=side as u32 {
            let w = i as u32 + 1;
            let (layers, channels) = [(1, 1), (1, 3), (2, 4), (7, 1), (300, 255)][(i + u64::from(h)) as usize % 5];
            let c = Cfg::new(w, h, layers, channels);
            let hd = c.header();
            sizes(&hd, w as u64, h as u64, layers as u64 * channels as u64)?;
            l.op(1);
        }
        l.state(side - 1);
        Ok(())
    });
    let edges: Vec<u32> = (0..30).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) + 1]).filter(|&v| v > 0 && v < 1 << 30).chain([(1 << 30) - 1, (1 << 30) - 2, 12345, 999_999_937]).collect();
    let e = edges.len() as u64;
    k.section("large-sizes", e * e, |i, l| {
        let (w, h) = (edges[(i % e) as usize], edges[(i / e) as usize]);
        for (layers, channels) in [(1u32, 1u32), (3, 4), (15, 1)] {
            let hd = Cfg::new(w, h, layers, channels).header();
            sizes(&hd, w as u64, h as u64, (layers * channels) as u64)?;
            l.op(1);
        }
        Ok(())
    });
    // every combination of few settings
    gen::settings(&mut k, 10_000, &[], |case, prog, img, l| {
        let s = compress(img, &case.c, &prog.build())?;
        buffers(&s, case.ds, l)
    });
    k.finish()
}

fn sizes(h: &Header, w: u64, ht: u64, planes: u64) -> Res {
    ensure!(h.get_channel_size() as u64 == w * ht && h.get_image_size() as u64 == w * ht * planes, "{}x{}: sizes {} and {}", w, ht, h.get_channel_size(), h.get_image_size());
    for ds in 0..32 {
        let f = 1u64 << ds;
        // the number of samples at multiples of f
        let (dw, dh) = ((w - 1) / f + 1, (ht - 1) / f + 1);
        let got = (h.get_downsampled_width(ds) as u64, h.get_downsampled_height(ds) as u64);
        ensure!(got == (dw, dh), "{}x{} at ds {}: {:?} instead of {:?}", w, ht, ds, got, (dw, dh));
        let got = (h.get_downsampled_channel_size(ds) as u64, h.get_downsampled_image_size(ds) as u64, h.get_decompress_buffer_size(ds) as u64);
        ensure!(got == (dw * dh, dw * dh * planes, dw * dh * planes), "{}x{} at ds {}: sizes {:?}", w, ht, ds, got);
    }
    Ok(())
}
