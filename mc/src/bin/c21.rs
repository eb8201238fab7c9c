//! C21: splitting of work hands out everything exactly once with the right neighbours.
use gfwx::processing::image::Image;
use gfwx::processing::*;
use mc::{ensure, gen};
use mc::codec::first_diff;
use mc::fw::*;

fn base(n: usize) -> Vec<u32> {
    (0..n as u32).map(|v| v + 1000).collect()
}
/// (start, len) of a part of the slice, by address
fn at<T>(origin: *const T, s: &[T]) -> (usize, usize) {
    if s.is_empty() { (0, 0) } else { ((s.as_ptr() as usize - origin as usize) / std::mem::size_of::<T>(), s.len()) }
}
fn chunk(k: i64, step: usize, n: usize) -> (usize, usize) {
    if k < 0 || k as usize * step >= n {
        return (0, 0);
    }
    let a = k as usize * step;
    (a, step.min(n - a))
}

fn overlapping(n: usize, step: usize, l: &mut Local) -> Res {
    let mut v = base(n);
    let o = v.as_ptr();
    // all parts are kept alive together
    let items: Vec<_> = OverlappingChunksIterator::from_slice(&mut v, step).collect();
    l.op(1);
    let want = (0..).map(|i| 2 * i + 1).take_while(|k| k * step < n).count();
    ensure!(items.len() == want, "length {} step {}: {} items instead of {}", n, step, items.len(), want);
    for (i, (a, b, c)) in items.iter().enumerate() {
        let k = 2 * i as i64 + 1;
        let got = [at(o, a), at(o, b), at(o, c)];
        let want = [chunk(k - 1, step, n), chunk(k, step, n), chunk(k + 1, step, n)];
        ensure!(got == want, "length {} step {} item {}: {:?} instead of {:?}", n, step, i, got, want);
    }
    for (_, b, _) in items {
        b.iter_mut().for_each(|x| *x += 1);
    }
    for (i, x) in v.iter().enumerate() {
        ensure!(*x == 1000 + i as u32 + (i / step % 2) as u32, "length {} step {}: element {} handed out wrongly", n, step, i);
    }
    l.trace(1);
    Ok(())
}
fn double(n: usize, step: usize, l: &mut Local) -> Res {
    let mut v = base(n);
    let o = v.as_ptr();
    let items: Vec<_> = DoubleOverlappingChunksIterator::from_slice(&mut v, step).collect();
    l.op(1);
    let want = (0..).map(|i| 2 * i + 1).take_while(|k| k * step < n).count();
    ensure!(items.len() == want, "double, length {} step {}: {} items instead of {}", n, step, items.len(), want);
    for (i, c) in items.iter().enumerate() {
        let k = 2 * i as i64 + 1;
        let got = [at(o, c.prev_left), at(o, c.left), at(o, c.middle), at(o, c.right), at(o, c.next_right)];
        let want = [chunk(k - 3, step, n), chunk(k - 1, step, n), chunk(k, step, n), chunk(k + 1, step, n), chunk(k + 3, step, n)];
        ensure!(got == want, "double, length {} step {} item {}: {:?} instead of {:?}", n, step, i, got, want);
    }
    for c in items {
        c.middle.iter_mut().for_each(|x| *x += 1);
    }
    for (i, x) in v.iter().enumerate() {
        ensure!(*x == 1000 + i as u32 + (i / step % 2) as u32, "double, length {} step {}: element {} handed out wrongly", n, step, i);
    }
    l.trace(1);
    Ok(())
}
fn variable(n: usize, sizes: &[usize], l: &mut Local) -> Res {
    let v = base(n);
    let mut want = vec![];
    let mut p = 0;
    for &s in sizes {
        // ends with the data
        if p >= n {
            break;
        }
        let e = (p + s).min(n);
        want.push(&v[p..e]);
        p = e;
    }
    let got: Vec<&[u32]> = VariableChunksIterator::new(&v, sizes).collect();
    l.op(1);
    ensure!(got == want, "length {} sizes {:?}: part {:?} of {} is wrong", n, &sizes[..sizes.len().min(20)], first_diff(&got, &want), want.len());
    l.trace(1);
    Ok(())
}

fn tiles(w: usize, h: usize, planes: usize, step: usize, size: usize, l: &mut Local) -> Res {
    let n = w * h;
    let mut v = vec![0u32; n * planes];
    let o = v.as_mut_ptr();
    let len = v.len();
    let mut list: Vec<_> = Image::from_slice(&mut v, (w, h), planes).into_chunks_mut(size, step).collect();
    l.op(1);
    let mut want = vec![];
    for c in 0..planes {
        for y in (0..h).step_by(size) {
            for x in (0..w).step_by(size) {
                want.push((c, (x, (x + size).min(w)), (y, (y + size).min(h))));
            }
        }
    }
    let got: Vec<_> = list.iter().map(|t| (t.channel, t.x_range, t.y_range)).collect();
    ensure!(got == want, "{}x{}x{} tiles of {}: tile {:?} of {} is wrong", w, h, planes, size, first_diff(&got, &want), want.len());
    // every element of this level is writable through exactly one tile, the one that holds it
    for (i, t) in list.iter_mut().enumerate() {
        let (c, xr, yr) = want[i];
        for y in (yr.0..yr.1).step_by(step) {
            for x in (xr.0..xr.1).step_by(step) {
                if (x | y) & step != 0 || (x, y) == (xr.0, yr.0) {
                    let p = &mut t[(y, x)] as *mut u32;
                    let k = (p as usize - o as usize) / 4;
                    ensure!(k == c * n + y * w + x && k < len, "{}x{}x{} tile {}: ({}, {}) is element {}", w, h, planes, i, x, y, k);
                    let q = unsafe { t.get_unchecked_mut(y, x) as *mut u32 };
                    ensure!(p == q, "{}x{}x{} tile {}: unchecked access differs", w, h, planes, i);
                    ensure!(&t[(y, x)] as *const u32 == p as *const u32 && unsafe { t.get_unchecked(y, x) as *const u32 } == p as *const u32, "{}x{}x{} tile {}: read access differs", w, h, planes, i);
                    t[(y, x)] += 1;
                }
            }
        }
    }
    drop(list);
    for c in 0..planes {
        for y in 0..h {
            for x in 0..w {
                let m = x % step == 0 && y % step == 0 && ((x | y) & step != 0 || (x % size, y % size) == (0, 0));
                ensure!(v[c * n + y * w + x] == m as u32, "{}x{}x{} tiles of {} step {}: element ({}, {}) handed out {} times", w, h, planes, size, step, x, y, v[c * n + y * w + x]);
            }
        }
    }
    l.trace(1);
    Ok(())
}

/// access through a tile outside of what it owns is refused
fn refused(w: usize, h: usize, planes: usize, step: usize, size: usize, l: &mut Local) -> Res {
    let mut v = vec![7u32; w * h * planes];
    let mut list: Vec<_> = Image::from_slice(&mut v, (w, h), planes).into_chunks_mut(size, step).collect();
    for i in 0..list.len() {
        let t = &mut list[i];
        let (xr, yr) = (t.x_range, t.y_range);
        for y in 0..h + 1 {
            for x in 0..w {
                let owned = x >= xr.0 && x < xr.1 && y >= yr.0 && y < yr.1;
                let level = x % step == 0 && y % step == 0 && (x | y) & step != 0;
                let origin = (x, y) == (xr.0, yr.0);
                // reads of other tiles' coefficients of this level
                if !owned && level {
                    ensure!(guarded(|| t[(y, x)]).is_err(), "{}x{} tile {} reads ({}, {}) of another tile", w, h, i, x, y);
                    l.count("accesses refused", 1);
                }
                // writes to anything that is not a coefficient of this level and tile
                if !(owned && (level || origin)) {
                    ensure!(guarded(|| t[(y, x)] = 9).is_err(), "{}x{} tile {} writes ({}, {})", w, h, i, x, y);
                    l.count("accesses refused", 1);
                }
                l.op(1);
            }
        }
    }
    drop(list);
    ensure!(v.iter().all(|&x| x == 7), "a refused write took place");
    l.trace(1);
    Ok(())
}

fn main() {
    let mut k = Check::new("C21");
    let m = k.pick(300u64, 900);
    k.section("overlapping", m * m, |i, l| {
        let mut r = Radix(i);
        let (n, step) = (r.n(m) as usize, r.n(m) as usize + 1);
        l.describe(format_args!("length {} step {}", n, step));
        overlapping(n, step, l)?;
        l.outcome(hash(&[(n / step).min(255) as u8, (n % step == 0) as u8]));
        double(n, step, l)
    });
    // all lists of sizes
    let (maxlen, parts) = (k.pick(9u64, 12), k.pick(5u64, 6));
    k.section("variable", (maxlen + 1) * (0..=parts).map(|p| pow(6, p)).sum::<u64>(), |i, l| {
        let mut r = Radix(i);
        let n = r.n(maxlen + 1) as usize;
        let mut j = r.0;
        let mut p = 0;
        while j >= pow(6, p) {
            j -= pow(6, p);
            p += 1;
        }
        let mut r = Radix(j);
        let sizes: Vec<usize> = (0..p).map(|_| r.of(&[0, 1, 2, 3, 7, 1 << 40])).collect();
        l.describe(format_args!("length {} sizes {:?}", n, sizes));
        l.outcome(hash(format!("{:?}", (n, &sizes)).as_bytes()));
        variable(n, &sizes, l)
    });
    // tiles of every image size, step and block size; also blocks of unusual size
    let m = k.pick(26u64, 44);
    k.section("tiles", m * m * 6 * 4 * 3, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        let step = 1usize << r.n(6);
        let block = r.of(&[2u32, 3, 5, 30]);
        let planes = r.n(3) as usize + 1;
        l.describe(format_args!("{}x{}x{} step {} blocks of 2^{}", w, h, planes, step, block));
        l.outcome(hash(&[w as u8, h as u8, step as u8, block as u8, planes as u8]));
        tiles(w, h, planes, step, step << block, l)
    });
    let m = k.pick(10u64, 14);
    k.section("foreign-access", m * m * 3 * 2 * 2, |i, l| {
        let mut r = Radix(i);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        let step = 1usize << r.n(3);
        let size = step << r.of(&[1, 2]);
        let planes = r.n(2) as usize + 1;
        l.describe(format_args!("{}x{}x{} step {} blocks of {}", w, h, planes, step, size));
        refused(w, h, planes, step, size, l)
    });
    // every item is processed once, whatever the hint
    k.section("process-each", 600 * 2, |i, l| {
        let mut r = Radix(i);
        let hint = r.bit();
        let n = r.0 as usize;
        let seen: Vec<_> = (0..n).map(|_| std::sync::atomic::AtomicU32::new(0)).collect();
        process_maybe_parallel_for_each(0..n, |j| { seen[j].fetch_add(1, std::sync::atomic::Ordering::Relaxed); }, hint);
        ensure!(seen.iter().all(|s| s.load(std::sync::atomic::Ordering::Relaxed) == 1), "{} items, hint {}: not each processed once", n, hint);
        let mut v: Vec<usize> = process_maybe_parallel_map_collect(0..n, |j| 3 * j + 1, hint);
        l.op(2);
        v.sort_unstable();
        ensure!(v.len() == n && v.iter().enumerate().all(|(j, &x)| x == 3 * j + 1), "{} items, hint {}: wrong results {:?}", n, hint, v);
        let mut rows: Vec<Vec<u32>> = (0..n).map(|j| vec![j as u32; 3]).collect();
        process_maybe_parallel_for_each(rows.iter_mut().step_by(2), |r| r.iter_mut().for_each(|x| *x += 1), hint);
        ensure!(rows.iter().enumerate().all(|(j, r)| r.iter().all(|&x| x == j as u32 + (j % 2 == 0) as u32)), "{} rows, hint {}", n, hint);
        l.trace(3);
        Ok(())
    });
    // beyond every 16 bit count
    let long = k.pick(140_000usize, 3_000_000);
    k.section("huge-lists", 6 * 2, |i, l| {
        let mut r = Radix(i);
        let step = r.of(&[1usize, 2, 3, 1000, 65535, 65536]);
        let n = [70_001, long][r.n(2) as usize];
        l.describe(format_args!("length {} step {}", n, step));
        overlapping(n, step, l)?;
        double(n, step, l)?;
        let sizes: Vec<usize> = (0..n / 2).map(|j| [1, 0, 3, 2][j % 4]).chain([66_000, 5]).collect();
        variable(n, &sizes, l)
    });
    k.section("huge-tiles", k.pick(7, gen::HUGE.len() as u64) * 12, |i, l| {
        let mut r = Radix(i);
        let (step, size) = r.of(&[(1usize, 4usize), (1, 128), (1, 1 << 30), (2, 8), (2, 256), (4, 16), (64, 256), (256, 32768), (1, 512), (1024, 4096), (8, 1 << 14), (16, 1 << 16)]);
        let (w, h) = gen::HUGE[r.0 as usize];
        l.describe(format_args!("{}x{} step {} blocks of {}", w, h, step, size));
        tiles(w as usize, h as usize, 1 + (i % 2) as usize, step, size, l)
    });
    k.section("huge-process-each", 4 * 2, |i, l| {
        let mut r = Radix(i);
        let hint = r.bit();
        let n = r.of(&[65_535usize, 65_536, 65_537, 200_000]);
        let seen: Vec<_> = (0..n).map(|_| std::sync::atomic::AtomicU32::new(0)).collect();
        process_maybe_parallel_for_each(0..n, |j| { seen[j].fetch_add(1, std::sync::atomic::Ordering::Relaxed); }, hint);
        ensure!(seen.iter().all(|s| s.load(std::sync::atomic::Ordering::Relaxed) == 1), "{} items, hint {}: not each processed once", n, hint);
        let mut v: Vec<usize> = process_maybe_parallel_map_collect(0..n, |j| 3 * j + 1, hint);
        l.op(2);
        v.sort_unstable();
        ensure!(v.len() == n && v.iter().enumerate().all(|(j, &x)| x == 3 * j + 1), "{} items, hint {}: wrong results", n, hint);
        l.trace(1);
        Ok(())
    });
    k.finish()
}
