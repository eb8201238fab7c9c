//! C16: the quantiser is the reference quantiser, with bounded error, each coefficient scaled once.
use gfwx::quant::{dequantize, quantize};
use mc::fw::*;
use mc::{ensure, gen, oracle};

fn rows(d: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    d.chunks_mut(w).collect()
}
fn quant(d: &mut [i16], w: usize, q: i32, min: i32, max: i32) {
    quantize(&mut rows(d, w), q, min, max)
}
fn dequant(d: &mut [i16], w: usize, q: i32, min: i32, max: i32) {
    dequantize(&mut rows(d, w), q, min, max)
}

/// the scale of every position: quality at its level, or None where nothing is scaled
fn scales(w: usize, h: usize, q: i32, min: i32, max: i32) -> Vec<Option<i32>> {
    let mut v = vec![None; w * h];
    for y in 0..h {
        for x in 0..w {
            if x | y == 0 {
                continue;
            }
            let k = (x | y).trailing_zeros();
            // levels exist as long as the step is below both sizes, and end at the first that needs no scaling
            if 1usize << k >= w.min(h) {
                continue;
            }
            let mut lq = q;
            let mut ok = true;
            for j in 0..=k {
                if lq.max(min).max(1) >= max {
                    ok = false;
                    break;
                }
                if j < k {
                    lq = max.min(2 * lq);
                }
            }
            if ok {
                v[y * w + x] = Some(lq.max(min).max(1));
            }
        }
    }
    v
}

/// quantise `d`, compare with reference and with the independent description, and back
fn plane(d: &[i16], w: usize, h: usize, q: i32, min: i32, max: i32, l: &mut Local) -> Res {
    let sc = scales(w, h, q, min, max);
    let mut a = d.to_vec();
    quant(&mut a, w, q, min, max);
    let mut b = d.to_vec();
    oracle::quantize(&mut b, w, h, q, min, max);
    l.op(1);
    ensure!(a == b, "{}x{} q {} min {} max {}: quantising gives {:?} instead of {:?} for {:?}", w, h, q, min, max, &a[..a.len().min(30)], &b[..b.len().min(30)], &d[..d.len().min(30)]);
    for i in 0..w * h {
        let want = match sc[i] {
            None => d[i],
            Some(s) => (i32::from(d[i]) * s / max) as i16,
        };
        ensure!(a[i] == want, "{}x{} q {} max {}: coefficient ({}, {}) of value {} becomes {}, not {} (scale {:?})", w, h, q, max, i % w, i / w, d[i], a[i], want, sc[i]);
        ensure!(i32::from(a[i]).signum() * i32::from(d[i]).signum() >= 0 && i32::from(a[i]).abs() <= i32::from(d[i]).abs(), "sign or magnitude of {} -> {}", d[i], a[i]);
    }
    l.outcome(hash16(&a));
    let mut r = a.clone();
    dequant(&mut r, w, q, min, max);
    let mut b = a.clone();
    oracle::dequantize(&mut b, w, h, q, min, max);
    l.op(1);
    ensure!(r == b, "{}x{} q {} min {} max {}: dequantising gives {:?} instead of {:?} for {:?}", w, h, q, min, max, &r[..r.len().min(30)], &b[..b.len().min(30)], &a[..a.len().min(30)]);
    for i in 0..w * h {
        match sc[i] {
            None => ensure!(r[i] == d[i], "{}x{} q {}: unscaled coefficient ({}, {}) changed from {} to {}", w, h, q, i % w, i / w, d[i], r[i]),
            Some(s) => {
                ensure!(a[i] != 0 || r[i] == 0, "zero does not stay zero: {} -> {}", d[i], r[i]);
                // error below one step max/s, where the value is representable
                let exact = (i64::from(a[i]).abs() * i64::from(max) + i64::from(max / 2)) / i64::from(s);
                if exact <= 32767 {
                    let err = i64::from(r[i]) - i64::from(d[i]);
                    ensure!(err.abs() * i64::from(s) < i64::from(max) && (i64::from(r[i]) * i64::from(d[i]) >= 0),
                        "{}x{} q {} max {}: {} is reconstructed as {}", w, h, q, max, d[i], r[i]);
                }
            }
        }
    }
    l.trace(1);
    // dequantising any values
    let mut r = d.to_vec();
    dequant(&mut r, w, q, min, max);
    let mut b = d.to_vec();
    oracle::dequantize(&mut b, w, h, q, min, max);
    l.op(1);
    ensure!(r == b, "{}x{} q {} min {} max {}: dequantising gives {:?} instead of {:?} for {:?}", w, h, q, min, max, &r[..r.len().min(30)], &b[..b.len().min(30)], &d[..d.len().min(30)]);
    Ok(())
}

fn main() {
    let mut k = Check::new("C16");
    // every value at every quality: a plane of 256x256 holds each 16 bit value at a varying level; a
    // second arrangement puts every value at the finest level
    let qualities: Vec<i32> = (1..=1024).collect();
    let maxes = [8192, 1024];
    k.section("all-values", qualities.len() as u64 * 2, |i, l| {
        let mut r = Radix(i);
        let max = r.of(&maxes);
        let q = qualities[r.n(qualities.len() as u64) as usize];
        let d: Vec<i16> = (0..=u16::MAX).map(|v| v as i16).collect();
        l.describe(format_args!("all values in one plane q {} max {}", q, max));
        plane(&d, 256, 256, q, 0, max, l)?;
        // two columns: odd ones are the finest level in every row
        let w = 3;
        let mut e = vec![0i16; w * 65536];
        for (y, v) in d.iter().enumerate() {
            e[y * w + 1] = *v;
            e[y * w + 2] = v.wrapping_add(77);
        }
        l.describe(format_args!("all values at the finest level q {} max {}", q, max));
        plane(&e, w, 65536, q, 0, max, l)?;
        l.state(65536 * 2);
        l.sample(|| format!("all 65536 values at quality {} of {}", q, max));
        Ok(())
    });
    // every shape: one value everywhere, scales visible at each position
    let m = k.pick(40, 80);
    k.section("shapes", m * m, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        for max in maxes {
            for q in [1, 2, 3, 7, 16, 33, 64, 100, 255, 511, 512, 513, 777, 1023, 1024] {
                for v in [8160i16, -2041, 37] {
                    let d: Vec<i16> = (0..w * h).map(|j| if v == 37 { gen::mix(j as u64) as i16 } else { v }).collect();
                    l.describe(format_args!("{}x{} q {} max {} v {}", w, h, q, max, v));
                    plane(&d, w, h, q, 0, max, l)?;
                    l.state(1);
                }
            }
        }
        Ok(())
    });
    // all shapes and qualities of a larger range, each with each, and with data of each kind
    let side = k.pick(60, 200);
    let a = gen::array(vec![(1..=side).collect(), (1..=side).collect(), (1..=1024).collect(), (0..24).collect(), (0..6).collect(), vec![0, 1, 2]], 2);
    k.section("shapes-and-qualities", a.len(), |i, l| {
        let r = a.row(i);
        let (w, h) = (r[0] as usize, r[1] as usize);
        let c = mc::codec::Cfg::new(w as u32, h as u32, 1, 1);
        let max = maxes[r[5] as usize % maxes.len()];
        // magnitudes as coefficients of any level have, of both signs
        let d: Vec<i16> = gen::image(r[3] as u64, &c).iter().enumerate().map(|(j, &v)| (i16::from(v) << r[4]) * if gen::mix(j as u64) % 2 == 0 { 1 } else { -1 }).collect();
        l.describe(format_args!("{}x{} q {} max {} family {} magnitude {}", w, h, r[2], max, r[3], r[4]));
        plane(&d, w, h, r[2], 0, max, l)
    });
    // all small parameters, including a minimum quality and other maxima
    k.section("parameters", 24 * 24 * 12, |i, l| {
        let mut r = Radix(i);
        let (q, min) = (r.n(24) as i32, r.n(24) as i32);
        let max = r.of(&[1, 2, 3, 5, 8, 16, 17, 23, 24, 64, 100, 1024]);
        for (w, h) in [(9, 9), (16, 5), (5, 17), (1, 9), (2, 2), (3, 2)] {
            let d: Vec<i16> = (0..w * h).map(|j| (gen::mix(j as u64 * 7) as i16) >> (j % 9)).collect();
            l.describe(format_args!("{}x{} q {} min {} max {}", w, h, q, min, max));
            plane(&d, w, h, q, min, max, l)?;
            l.state(1);
        }
        Ok(())
    });
    // all contents of small planes over an alphabet around the step
    const A: [i16; 5] = [0, 1, -1, 255, -2040];
    let n = k.pick(6, 8);
    k.section("contents", pow(5, n) * 4, |i, l| {
        let mut r = Radix(i);
        let (w, h) = match r.n(4) {
            0 => (2, n as usize / 2),
            1 => (n as usize / 2, 2),
            2 => (n as usize, 1),
            _ => (1, n as usize),
        };
        let d = gen::by_digits16(r.0, &A, n as usize);
        for q in [1, 30, 500, 1024] {
            plane(&d, w, h, q, 0, 8192, l)?;
        }
        Ok(())
    });
    // above the thresholds of parallel work
    let big = [(96, 96), (97, 96), (96, 97), (128, 128), (130, 127), (300, 200), (9217, 1), (1, 9217), (2, 4700), (4700, 2), (1030, 33)];
    k.section("large", big.len() as u64 * 14, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let q = r.of(&[1, 2, 5, 31, 32, 64, 100, 256, 300, 512, 700, 1000, 1023, 1024]);
        for max in maxes {
            let d: Vec<i16> = (0..w * h).map(|j| (gen::mix(j as u64 * 3) as i16) >> (j % 6)).collect();
            l.describe(format_args!("{}x{} q {} max {}", w, h, q, max));
            plane(&d, w, h, q, 0, max, l)?;
        }
        Ok(())
    });
    // beyond every 16 bit count, and the deepest levels that are quantised
    let last = gen::HUGE.len() as u64 - 1;
    k.section("huge", gen::HUGE.len() as u64 * 4, |i, l| {
        let (w, h) = gen::HUGE[(i / 4) as usize];
        let (w, h) = (w as usize, h as usize);
        if i / 4 == last && i % 4 > 1 {
            return l.skip();
        }
        let d: Vec<i16> = (0..w * h).map(|j| (gen::mix(j as u64) as i16) >> (j % 5)).collect();
        l.describe(format_args!("{}x{}", w, h));
        plane(&d, w, h, [1, 100, 512, 7][i as usize % 4], 0, [8192, 1024][(i / 2) as usize % 2], l)
    });
    // the deepest level there is to quantise
    k.section("giant", 2, |i, l| {
        let (w, h) = [(8200, 8197), (8193, 8300)][i as usize];
        let d: Vec<i16> = (0..w * h).map(|j| (gen::mix(j as u64) as i16) >> (j % 5)).collect();
        l.describe(format_args!("{}x{}", w, h));
        plane(&d, w, h, 1 + i as i32, 0, 8192, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        let d: Vec<i16> = (0..c.w as usize * c.h as usize).map(|j| (gen::mix(j as u64 ^ i) as i16) >> (j % 6)).collect();
        plane(&d, c.w as usize, c.h as usize, c.q as i32, 0, [8192, 1024][i as usize % 2], l)
    });
    k.finish()
}
