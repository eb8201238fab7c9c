//! C15: wavelet lifting is exactly invertible and matches the reference.
use gfwx::lifting::*;
use mc::codec::FILTERS;
use mc::fw::*;
use mc::{ensure, gen, oracle};

fn rows(d: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    d.chunks_mut(w).collect()
}
fn lift(d: &mut [i16], w: usize, filter: u8) {
    let mut r = rows(d, w);
    if filter == 0 { lift_linear(&mut r) } else { lift_cubic(&mut r) }
}
fn unlift(d: &mut [i16], w: usize, filter: u8) {
    let mut r = rows(d, w);
    if filter == 0 { unlift_linear(&mut r) } else { unlift_cubic(&mut r) }
}
fn clip(v: &[i16]) -> &[i16] {
    &v[..v.len().min(40)]
}

/// lift, compare, unlift, compare
fn samples(d: &[i16], w: usize, h: usize, filter: u8, l: &mut Local) -> Res {
    let mut a = d.to_vec();
    lift(&mut a, w, filter);
    let mut b = d.to_vec();
    oracle::lift(&mut b, w, h, filter);
    l.op(2);
    ensure!(a == b, "{}x{} filter {}: coefficient {:?} of {:?}: {:?} instead of {:?}", w, h, filter, a.iter().zip(&b).position(|(x, y)| x != y), clip(d), clip(&a), clip(&b));
    l.outcome(hash16(&a));
    unlift(&mut a, w, filter);
    ensure!(a == d, "{}x{} filter {}: sample {:?} of {:?} is not restored: {:?}", w, h, filter, a.iter().zip(d).position(|(x, y)| x != y), clip(d), clip(&a));
    l.trace(1);
    Ok(())
}
/// unlift coefficients that no image may have
fn coefs(d: &[i16], w: usize, h: usize, filter: u8, l: &mut Local) -> Res {
    let mut a = d.to_vec();
    unlift(&mut a, w, filter);
    let mut b = d.to_vec();
    oracle::unlift(&mut b, w, h, filter);
    l.op(2);
    ensure!(a == b, "{}x{} filter {}: sample {:?} for coefficients {:?}: {:?} instead of {:?}", w, h, filter, a.iter().zip(&b).position(|(x, y)| x != y), clip(d), clip(&a), clip(&b));
    l.outcome(hash16(&a));
    lift(&mut a, w, filter);
    ensure!(a == d, "{}x{} filter {}: lifting the result of unlifting changes {:?} to {:?}", w, h, filter, clip(d), clip(&a));
    l.trace(1);
    Ok(())
}

fn family(f: u64, w: usize, h: usize, amp: i16) -> Vec<i16> {
    let c = mc::codec::Cfg::new(w as u32, h as u32, 1, 1);
    // both signs, as color differences have
    gen::image(f, &c).iter().map(|&v| (i32::from(v) * i32::from(amp) / 255 - if f % 2 == 1 { i32::from(amp) / 2 } else { 0 }) as i16).collect()
}

fn main() {
    let mut k = Check::new("C15");
    // all contents of lines and small planes
    const A4: [i16; 4] = [0, 1, -2040, 2040];
    const A3: [i16; 3] = [2040, -3, -2037];
    const A2: [i16; 2] = [-2040, 2040];
    let tiny: Vec<(usize, usize)> = (1..=10).flat_map(|w| (1..=10).map(move |h| (w, h))).filter(|&(w, h)| w * h <= 20).collect();
    let budget = k.pick(100_000u64, 5_000_000);
    let plan: Vec<(usize, usize, u64, u64)> = tiny.iter().flat_map(|&(w, h)| {
        [4u64, 3, 2].iter().filter_map(move |&a| {
            let n = a.checked_pow((w * h) as u32)?;
            (n <= budget).then_some((w, h, a, n))
        }).take(1)
    }).collect();
    let total: u64 = plan.iter().map(|p| p.3).sum();
    k.section("all-contents", total, |i, l| {
        let mut i = i;
        for &(w, h, a, n) in &plan {
            if i < n {
                let alphabet: &[i16] = match a { 4 => &A4, 3 => &A3, _ => &A2 };
                let d = gen::by_digits16(i, alphabet, w * h);
                for f in FILTERS {
                    samples(&d, w, h, f, l)?;
                    coefs(&d.iter().map(|v| v / 2).collect::<Vec<_>>(), w, h, f, l)?;
                }
                return Ok(());
            }
            i -= n;
        }
        unreachable!()
    });
    // lines of all contents over a finer alphabet (every boundary case of the 4 point filter)
    let len = k.pick(6, 8);
    const A7: [i16; 7] = [0, 1, 2, -1, 8, 255, -2040];
    k.section("lines", pow(7, len) * 2, |i, l| {
        let mut r = Radix(i);
        let vertical = r.bit();
        let d = gen::by_digits16(r.0, &A7, len as usize);
        for f in FILTERS {
            for n in 4..=len as usize {
                if n == len as usize || d[n..].iter().all(|&v| v == 0) {
                    let (w, h) = if vertical { (1, n) } else { (n, 1) };
                    samples(&d[..n], w, h, f, l)?;
                }
            }
        }
        Ok(())
    });
    // an impulse at every position of every shape
    let m = k.pick(18, 34);
    k.section("impulses", m * m, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        let mut d = vec![0i16; w * h];
        for p in 0..w * h {
            for amp in [2040, -255] {
                for base in [0, 100] {
                    d.iter_mut().for_each(|v| *v = base);
                    d[p] = amp;
                    for f in FILTERS {
                        samples(&d, w, h, f, l)?;
                        if base == 0 {
                            coefs(&d, w, h, f, l)?;
                        }
                    }
                    l.state(1);
                }
            }
        }
        l.sample(|| format!("{}x{}: impulses at all {} positions", w, h, w * h));
        Ok(())
    });
    // coefficients of any size, wherever 16 bits suffice for everything on the way
    const WIDE: [i16; 6] = [0, 20000, -20000, 16383, -9001, 32767];
    let len = k.pick(7u32, 9);
    k.section("wide", pow(6, u64::from(len)), |i, l| {
        let d = gen::by_digits16(i, &WIDE, len as usize);
        for n in 2..=len as usize {
            if n < len as usize && d[n..].iter().any(|&v| v != 0) {
                continue;
            }
            for (w, h) in [(n, 1), (1, n), (2, n / 2), (n / 2, 2), (3, n / 3)] {
                for f in FILTERS {
                    if w * h > 1 && oracle::unlift_fits(&d[..w * h], w, h, f) {
                        coefs(&d[..w * h], w, h, f, l)?;
                    }
                }
            }
        }
        Ok(())
    });
    let a = gen::array(vec![(1..=40).collect(), (1..=40).collect(), (0..24).collect(), vec![32767, -32767, 24000, 16000, -12000, 6000], vec![1, 2, 3, 5, 8], vec![0, 1]], 3);
    k.section("wide-shapes", a.len(), |i, l| {
        let r = a.row(i);
        let (w, h, f) = (r[0] as usize, r[1] as usize, r[5] as u8);
        let mut d = family(r[2] as u64, w, h, r[3] as i16);
        // coarse coefficients of this size, the finer ones smaller
        for (p, v) in d.iter_mut().enumerate() {
            let fine = (((p % w) | (p / w)) as u32).trailing_zeros().min(5);
            *v = (i32::from(*v) * r[4] as i32 / (1 << (5 - fine))) .clamp(-32768, 32767) as i16;
        }
        if oracle::unlift_fits(&d, w, h, f) {
            l.describe(format_args!("{}x{} family {} amplitude {} x {} filter {}", w, h, r[2], r[3], r[4], f));
            coefs(&d, w, h, f, l)?;
        }
        Ok(())
    });
    // structured contents on every shape
    let m = k.pick(24, 48);
    let fams = k.pick(8, 24);
    k.section("families", m * m, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        for j in 0..fams {
            let f = (j * 24 / fams + i) % 24;
            for amp in [255, 2040, -2040] {
                let d = family(f, w, h, amp);
                for filter in FILTERS {
                    l.describe(format_args!("{}x{} family {} amplitude {} filter {}", w, h, f, amp, filter));
                    samples(&d, w, h, filter, l)?;
                    if amp <= 2040 {
                        coefs(&d, w, h, filter, l)?;
                    }
                }
            }
        }
        l.state(fams - 1);
        Ok(())
    });
    // all shapes of a larger range, each length with data of each kind
    let side = k.pick(160, 400);
    let a = gen::array(vec![(1..=side).collect(), (1..=side).collect(), (0..24).collect(), vec![255, 2040, -2040, 1020, 64], vec![0, 1]], 2);
    k.section("shapes", a.len(), |i, l| {
        let r = a.row(i);
        let (w, h) = (r[0] as usize, r[1] as usize);
        let d = family(r[2] as u64, w, h, r[3] as i16);
        l.describe(format_args!("{}x{} family {} amplitude {} filter {}", w, h, r[2], r[3], r[4]));
        samples(&d, w, h, r[4] as u8, l)?;
        if r[3] <= 2040 {
            coefs(&d, w, h, r[4] as u8, l)?;
        }
        Ok(())
    });
    // long thin planes and planes above the thresholds for parallel work
    let long = k.pick(300, 1100);
    k.section("long", long * 6, |i, l| {
        let mut r = Radix(i);
        let n = r.n(long) as usize + 1;
        let m = r.of(&[1usize, 2, 5]);
        let (w, h) = if r.bit() { (m, n) } else { (n, m) };
        for f in [4, 13, 1, 11] {
            let d = family(f, w, h, 2040);
            for filter in FILTERS {
                l.describe(format_args!("{}x{} family {} filter {}", w, h, f, filter));
                samples(&d, w, h, filter, l)?;
                coefs(&d, w, h, filter, l)?;
            }
        }
        Ok(())
    });
    let big = [(64, 64), (65, 64), (63, 66), (128, 128), (129, 128), (127, 131), (200, 90), (90, 200), (257, 255), (1025, 17), (17, 1025)];
    k.section("large", big.len() as u64 * 24 * 2, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let f = r.n(24);
        let filter = r.of(&FILTERS);
        l.describe(format_args!("{}x{} family {} filter {}", w, h, f, filter));
        for amp in [255, 2040] {
            let d = family(f, w, h, amp);
            samples(&d, w, h, filter, l)?;
            coefs(&d, w, h, filter, l)?;
        }
        Ok(())
    });
    // constant planes
    k.section("constant", 40 * 40, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(40) as usize + 1, r.n(40) as usize + 1);
        for v in (-2040..=2040).step_by(if w * h <= 12 { 1 } else { 340 }) {
            for filter in FILTERS {
                let mut d = vec![v as i16; w * h];
                lift(&mut d, w, filter);
                l.op(1);
                ensure!(d[0] == v as i16 && d[1..].iter().all(|&x| x == 0), "{}x{} filter {} value {}: {:?}", w, h, filter, v, clip(&d));
                unlift(&mut d, w, filter);
                ensure!(d.iter().all(|&x| x == v as i16), "{}x{} filter {} value {}: restored {:?}", w, h, filter, v, clip(&d));
                l.state(1);
            }
        }
        l.trace(1);
        Ok(())
    });
    // beyond every 16 bit count
    k.section("huge", k.pick(8, gen::HUGE.len() as u64) * 4, |i, l| {
        let mut r = Radix(i);
        let filter = r.of(&FILTERS);
        let f = r.of(&[4u64, 6]);
        let (w, h) = gen::HUGE[r.0 as usize];
        let d = family(f, w as usize, h as usize, 2040);
        l.describe(format_args!("{}x{} family {} filter {}", w, h, f, filter));
        samples(&d, w as usize, h as usize, filter, l)?;
        coefs(&d, w as usize, h as usize, filter, l)
    });
    // just above powers of two up to 2^24: where a single precision number loses them
    k.section("giant", 4 * 4, |i, l| {
        let n = (1usize << [24, 21, 22, 23][(i / 4) as usize]) + 1 + (i / 2 % 2) as usize * 2;
        let (w, h) = if i % 2 == 0 { (n, 1) } else { (1, n) };
        let filter = (i / 2 % 2) as u8;
        let d = family([4u64, 6][(i % 2) as usize], w, h, 2040);
        l.describe(format_args!("{}x{} filter {}", w, h, filter));
        samples(&d, w, h, filter, l)?;
        coefs(&d, w, h, filter, l)
    });
    // all shapes up to a larger bound, and every length
    let max = k.pick(600, 1600);
    k.section("strips", gen::strips(max), |i, l| {
        let (c, f) = gen::strip(i, max);
        l.describe(format_args!("{:?} family {}", c, f));
        let d = family(f, c.w as usize, c.h as usize, 2040);
        samples(&d, c.w as usize, c.h as usize, c.filter, l)?;
        coefs(&d, c.w as usize, c.h as usize, c.filter, l)
    });
    k.finish()
}
