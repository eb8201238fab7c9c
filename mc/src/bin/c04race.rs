//! C04, second part: concurrent tasks never conflict on memory.
#[cfg(feature = "race")]
#[global_allocator]
static ALLOC: mc::race::Alloc = mc::race::Alloc;

#[cfg(not(feature = "race"))]
fn main() {
    panic!("needs the access recorder");
}

#[cfg(feature = "race")]
fn main() {
    imp::main()
}

#[cfg(feature = "race")]
mod imp {
    use gfwx::*;
    use mc::codec::*;
    use mc::fw::*;
    use mc::sched::*;
    use mc::{ensure, gen, race};
    use rayon::prelude::*;

    fn watch<R>(l: &mut Local, f: impl Fn() -> R) -> Result<R, String> {
        let (((r, t), rep, conflict), _) = (race::record(|| run_policy(Policy::Isolated, &f)), ());
        if let Some(c) = conflict {
            return Err(format!("concurrent tasks conflict: {} [regions {:?}]", c, t.regions.iter().map(|r| r.1).collect::<Vec<_>>()));
        }
        l.op(rep.accesses);
        l.state(t.regions.iter().map(|r| r.1 as u64).sum());
        l.trace(1);
        l.count("regions", rep.regions);
        l.count("memory_cells_compared", rep.bytes8);
        l.count("cells_read_by_several_tasks", rep.shared);
        l.count("access_pairs_compared", rep.pairs);
        l.sample(|| format!("{} {:?}", l_regions(&t), rep));
        Ok(r)
    }
    fn l_regions(t: &Trace) -> String {
        format!("regions with {:?} tasks:", t.regions.iter().map(|r| r.1).collect::<Vec<_>>())
    }

    fn both(img: &[u8], c: &Cfg, prog: &Prog, dss: &[usize], l: &mut Local) -> Res {
        let p = prog.build();
        let s = watch(l, || compress(img, c, &p))??;
        for &ds in dss {
            let (_, out) = watch(l, || decompress(&s, ds))??;
            l.outcome(hash(&out));
        }
        Ok(())
    }

    /// What `f` returns must not depend on which items run before an atomic operation of an item.
    fn preempted<R: PartialEq>(l: &mut Local, f: impl Fn() -> R) -> Result<u64, String> {
        const POINTS: u64 = 64;
        let (want, _) = run_policy(Policy::InOrder, &f);
        let caught = |at, all| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_preempted(Policy::Swap, at, all, &f))).ok();
        let differs = |at, all| caught(at, all).map_or(true, |(r, _)| r != want);
        let n = caught(Some(u64::MAX), false).map_or(1, |x| x.1);
        l.trace(1);
        l.count("atomic_operations_of_tasks", n);
        if n == 0 {
            return Ok(0);
        }
        let shown: Vec<u64> = if n <= POINTS { (0..n).collect() } else { (0..POINTS / 2).chain((0..POINTS / 2).map(|j| POINTS / 2 + (n - POINTS / 2) * j / (POINTS / 2))).collect() };
        for at in shown.into_iter().map(Some).chain([None]) {
            for all in [false, true] {
                l.trace(1);
                if !differs(at, all) {
                    continue;
                }
                // again with a thread for each item, so that memory of the thread is not shared by accident
                let before = rayon::mc::threads(true);
                let r = differs(at, all);
                rayon::mc::threads(before);
                if r {
                    return Err(format!("the result depends on which tasks run before atomic operation {:?} (all that are left: {})", at, all));
                }
            }
        }
        Ok(n)
    }
    fn both_preempted(img: &[u8], c: &Cfg, prog: &Prog, l: &mut Local) -> Res {
        let p = prog.build();
        preempted(l, || compress(img, c, &p))?;
        let s = compress(img, c, &p)?;
        preempted(l, || decompress(&s, 0))?;
        Ok(())
    }

    pub fn main() {
        let mut k = Check::new("C04");
        // lost updates are found, and nothing in counterparts that do not lose them
        k.section("self-test-preemption", 8, |i, l| {
            use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
            let found = preempted(l, || {
                let (a, b) = (AtomicU64::new(0), AtomicBool::new(false));
                let m = std::sync::Mutex::new(0u64);
                let once = std::sync::OnceLock::new();
                (0..5u64).par_bridge().for_each(|j| match i {
                    1 => a.store(a.load(Relaxed) + j, Relaxed),
                    3 => {
                        let x = *m.lock().unwrap();
                        *m.lock().unwrap() = x + j;
                    }
                    // found by what runs before the last operation only
                    5 => {
                        if j == 4 || a.load(SeqCst) < 4 {
                            a.fetch_add(1, SeqCst);
                        }
                    }
                    7 => {
                        if !b.load(SeqCst) {
                            b.store(true, SeqCst);
                            a.fetch_add(1, SeqCst);
                        }
                    }
                    0 => drop(a.fetch_add(j, Relaxed)),
                    2 => *m.lock().unwrap() += j,
                    4 => {
                        while b.swap(true, SeqCst) {}
                        a.store(a.load(Relaxed) + j, Relaxed);
                        b.store(false, SeqCst);
                    }
                    _ => {
                        once.get_or_init(|| 1u64);
                        while a.compare_exchange(a.load(SeqCst), a.load(SeqCst) + 1, SeqCst, SeqCst).is_err() {}
                    }
                });
                let m = *m.lock().unwrap();
                (a.into_inner(), m)
            });
            l.describe(format_args!("planted {}", i));
            if found.is_err() != (i & 1 == 1) {
                println!("preemption does not work: {} {:?}", i, found);
                std::process::exit(2);
            }
            Ok(())
        });
        // the recorder finds planted conflicts, and nothing in their repaired counterparts
        thread_local! {
            static SCRATCH: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        k.section("self-test", 10, |i, l| {
            let mut v = vec![0u64; 8];
            let base = v.as_mut_ptr() as usize;
            let lock = std::sync::Mutex::new(0u64);
            let slots: Vec<std::sync::atomic::AtomicU64> = (0..64).map(|_| Default::default()).collect();
            let plain = vec![0u64; 1 << 16];
            let (_, _rep, conflict) = race::record(|| run_policy(Policy::Isolated, || {
                let worker = || rayon::current_thread_index().unwrap();
                let step = |j: usize, k: usize| unsafe {
                    let p = base as *mut u64;
                    match i / 2 * 2 + (i ^ 1) % 2 {
                        1 => *p.add(j) = std::hint::black_box(*p.add(j + 4)),
                        0 => *p.add(j) = std::hint::black_box(*p.add(j + 1)),
                        3 => {
                            let mut g = lock.lock().unwrap();
                            *g += j as u64;
                            *p += *g;
                        }
                        // ordered by luck only: an access after the unlock
                        2 => {
                            *lock.lock().unwrap() += 1;
                            *p += 1;
                        }
                        // memory of the thread, and a pointer to it that another one uses
                        5 | 4 => SCRATCH.with(|s| {
                            let mut s = s.borrow_mut();
                            s.resize(16, 0);
                            s[k] += j as u64;
                            if i == 5 {
                                let shared = slots[0].swap(s.as_ptr() as u64, std::sync::atomic::Ordering::Relaxed) as *mut u64;
                                if !shared.is_null() && j != 3 {
                                    *shared.add(k) += 1;
                                }
                            }
                        }),
                        // memory of the worker, with enough of it and with too little
                        7 => *(plain.as_ptr() as *mut u64).add(worker()) += 1,
                        6 => *(plain.as_ptr() as *mut u64).add(worker() % 2) += 1,
                        // nested regions, which write to a variable of the item, one place each or all the same
                        n => {
                            let mut mine = [0u64; 8];
                            let m = mine.as_mut_ptr() as usize;
                            (0..4usize).par_bridge().for_each(|x| *(m as *mut u64).add(if n == 9 { x } else { x / 2 }) += j as u64);
                            std::hint::black_box(&mine);
                        }
                    }
                };
                (0..4usize).par_bridge().for_each(|j| step(j, j));
            }));
            l.describe(format_args!("planted {}", i));
            if conflict.is_some() != (i & 1 == 1) {
                println!("access recorder does not work: {} {:?}", i, conflict);
                std::process::exit(2);
            }
            Ok(())
        });
        let m = k.pick(7, 14);
        k.section("all-shapes", m * m * 6 * 2, |i, l| {
            let mut r = Radix(i);
            let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 200]);
            c.block = 2;
            l.describe(format_args!("{:?}", c));
            both(&gen::image(4, &c), &c, &Prog::none(), &(0..=c.max_ds()).collect::<Vec<_>>(), l)
        });
        let shapes = [(9u32, 9u32, 1u32, 1u32), (4, 4, 1, 3), (5, 3, 2, 2), (8, 8, 3, 1), (17, 6, 1, 1), (6, 17, 1, 3), (33, 2, 1, 1), (2, 33, 1, 1), (12, 20, 1, 2), (1, 1, 3, 5), (31, 33, 1, 1), (40, 40, 1, 3)];
        let ns = k.pick(8, 12);
        k.section("settings", ns * 6 * 2 * 3 * 3, |i, l| {
            let mut r = Radix(i);
            let s = shapes[r.n(ns) as usize];
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 100]);
            c.block = r.of(&[2, 3, 7]);
            let f = r.of(&[4u64, 13, 2]);
            let lib = Prog::library(c.planes());
            let prog = &lib[i as usize % lib.len()];
            l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
            both(&gen::image(f, &c), &c, prog, &(0..=c.max_ds().min(2)).collect::<Vec<_>>(), l)
        });
        let big = [(130u32, 130u32, 1u32, 1u32), (65, 65, 1, 2), (97, 97, 1, 1), (300, 60, 1, 1), (60, 300, 1, 1)];
        k.section("above-thresholds", 5 * 6 * k.pick(1, 2), |i, l| {
            let mut r = Radix(i);
            let s = r.of(&big);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[200, 1024]);
            c.block = 3;
            l.describe(format_args!("{:?}", c));
            both(&gen::image(4, &c), &c, &Prog::none(), &[0], l)
        });
        k.section("preemption", 12 * 6 * 2, |i, l| {
            let mut r = Radix(i);
            let s = r.of(&shapes);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 100]);
            c.block = 2;
            l.describe(format_args!("{:?}", c));
            both_preempted(&gen::image(4, &c), &c, &Prog::none(), l)
        });
        k.section("preemption-above-thresholds", 5 * 6, |i, l| {
            let mut r = Radix(i);
            let s = r.of(&big);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = 200;
            c.block = 3;
            l.describe(format_args!("{:?}", c));
            both_preempted(&gen::image(4, &c), &c, &Prog::none(), l)
        });
        // every combination of few settings
        gen::settings_of(&mut k, 3, 400, &[], |case, prog, img, l| both(img, &case.c, prog, &[case.ds], l));
        let _ = |x: bool| -> Res {
            ensure!(x, "");
            Ok(())
        };
        k.finish()
    }
}
