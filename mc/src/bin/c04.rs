//! C04: results do not depend on the task schedule.
#[cfg(not(feature = "sched"))]
fn main() {
    panic!("needs the controllable rayon");
}

#[cfg(feature = "sched")]
fn main() {
    imp::main()
}

#[cfg(feature = "sched")]
mod imp {
    use gfwx::*;
    use mc::codec::*;
    use mc::fw::*;
    use mc::sched::*;
    use mc::{ensure, gen, oracle};

    /// what a user sees of one operation
    #[derive(PartialEq, Clone, Debug)]
    pub enum Seen {
        Compressed(Result<Vec<u8>, String>),
        Decoded(Result<usize, String>, Vec<u8>),
    }

    pub enum Op {
        Compress { img: Vec<u8>, c: Cfg, prog: Prog, cap: usize },
        Decompress { data: Vec<u8>, ds: usize },
    }
    impl Op {
        pub fn run(&self) -> Seen {
            match self {
                Op::Compress { img, c, prog, cap } => {
                    let mut buf = vec![0xC3u8; *cap];
                    let r = compress_simple(img, &c.header(), &prog.build(), &mut buf).map_err(|e| format!("{:?}", e));
                    Seen::Compressed(r.map(|n| {
                        buf.truncate(n);
                        buf
                    }))
                }
                Op::Decompress { data, ds } => {
                    let mut d = &data[..];
                    let h = Header::decode(&mut d).unwrap();
                    let mut out = vec![0xC3u8; h.get_decompress_buffer_size(*ds)];
                    let r = decompress_simple(d, &h, *ds, false, &mut out).map_err(|e| format!("{:?}", e));
                    Seen::Decoded(r, out)
                }
            }
        }
    }

    /// in all regions together: one item is held up by a number of other items, for the items and numbers given
    fn delays(op: &Op, want: &Seen, items: &[usize], bys: &[usize], l: &mut Local) -> Res {
        for &item in items {
            for &by in bys {
                let p = Policy::Delay { item, by };
                let (s, t) = run_policy(p, || op.run());
                l.op(t.moves);
                l.state(1);
                l.trace(1);
                l.count("delay_schedules", 1);
                ensure!(s == *want, "result differs: {} instead of {} [all regions {:?}]", brief(&s), brief(want), p);
            }
        }
        Ok(())
    }

    /// all policies for all regions together; single deviations in regions of up to 8 items
    fn all_policies(op: &Op, want: &Seen, l: &mut Local) -> Res {
        let mut regions = vec![];
        for p in POLICIES {
            let (s, t) = run_policy(p, || op.run());
            l.op(t.moves);
            l.state(1);
            l.trace(1);
            ensure!(s == *want, "result differs [all regions {:?}]", p);
            if p == Policy::InOrder {
                regions = t.regions;
            }
        }
        let n = regions.iter().map(|r| r.1).max().unwrap_or(0);
        let items: Vec<usize> = (0..n).filter(|&i| i < 14 || i + 4 > n || i % 37 == 0).collect();
        delays(op, want, &items, &[1, 2, n], l)?;
        let mut budget = 6;
        for (i, &(_, n)) in regions.iter().enumerate().rev() {
            if (2..=8).contains(&n) && budget > 0 {
                budget -= 1;
                let st = explore(i, 2, 3, 1, || op.run(), |s| {
                    ensure!(s == *want, "result differs");
                    Ok(())
                })?;
                l.op(st.moves);
                l.state(st.schedules);
                l.trace(st.schedules);
                l.count("schedules", st.schedules);
            }
        }
        l.count("regions", regions.len() as u64);
        l.sample(|| format!("{}: {} regions, largest {} items", l_desc(op), regions.len(), regions.iter().map(|r| r.1).max().unwrap_or(0)));
        Ok(())
    }

    /// all schedules of every region of `op`, one region at a time, and all policies for all regions together
    fn all_schedules(op: &Op, want: &Seen, max_full: usize, l: &mut Local) -> Res {
        let check = |s: Seen, l: &mut Local| -> Res {
            l.outcome(match &s {
                Seen::Compressed(Ok(b)) => hash(b),
                Seen::Decoded(_, b) => hash(b) ^ 1,
                _ => 2,
            });
            ensure!(s == *want, "result differs: {} instead of {}", brief(&s), brief(want));
            Ok(())
        };
        let (first, t) = run_policy(Policy::InOrder, || op.run());
        check(first, l)?;
        let regions = t.regions.clone();
        l.count("regions", regions.len() as u64);
        for p in POLICIES {
            let (s, t) = run_policy(p, || op.run());
            l.op(t.moves);
            l.state(1);
            l.trace(1);
            check(s, l).map_err(|e| format!("{} [all regions {:?}]", e, p))?;
        }
        let n = regions.iter().map(|r| r.1).max().unwrap_or(0).min(24);
        if n > 4 {
            let all: Vec<usize> = (0..n).collect();
            delays(op, want, &all, &all[1..], l)?;
        }
        for (i, &(kind, n)) in regions.iter().enumerate() {
            // items, workers, items in flight, deviations
            let bounds: &[(usize, usize, usize)] = match n {
                0 | 1 => &[(2, 2, 9)],
                2 => &[(3, 2, 99)],
                3 => &[(3, 3, 99)],
                4 if max_full >= 4 => &[(2, 4, 99), (1, 4, 99)],
                5 if max_full >= 5 => &[(1, 5, 99), (2, 3, 3)],
                n if n <= 8 => &[(2, 4, 2), (1, 8, 2)],
                n if n <= 24 => &[(2, 24, 1)],
                _ => &[],
            };
            if n <= max_full.max(3) && kind == "bridge" {
                l.count("regions_fully_explored", 1);
            } else if bounds.is_empty() {
                l.count("regions_policies_only", 1);
            } else {
                l.count("regions_deviation_bounded", 1);
            }
            for &(leaves, window, dev) in bounds {
                let mut local = Ok(());
                let st = explore(i, leaves, window, dev, || op.run(), |s| {
                    let r = check(s, l);
                    if r.is_err() && local.is_ok() {
                        local = r.clone();
                    }
                    r
                })?;
                l.op(st.moves);
                l.state(st.schedules);
                l.trace(st.schedules);
                l.count("schedules", st.schedules);
            }
        }
        l.sample(|| format!("{}: regions (items) {:?}", l_desc(op), regions.iter().map(|r| r.1).collect::<Vec<_>>()));
        Ok(())
    }
    fn l_desc(op: &Op) -> String {
        match op {
            Op::Compress { c, cap, .. } => format!("compress {:?} into {} bytes", c, cap),
            Op::Decompress { data, ds } => format!("decompress {} bytes ds {}", data.len(), ds),
        }
    }
    fn brief(s: &Seen) -> String {
        match s {
            Seen::Compressed(Ok(b)) => format!("{} bytes {}", b.len(), hex(b)),
            Seen::Compressed(Err(e)) => e.clone(),
            Seen::Decoded(r, b) => format!("{:?} {}", r, hex(b)),
        }
    }

    pub fn main() {
        let mut k = Check::new("C04");
        let shapes: Vec<(u32, u32, u32, u32)> = k.pick(
            vec![(1, 1, 1, 1), (2, 2, 1, 1), (3, 2, 1, 1), (2, 3, 1, 1), (4, 4, 1, 1), (5, 5, 1, 1), (3, 9, 1, 1), (9, 3, 1, 1), (8, 7, 1, 1), (1, 12, 1, 1), (12, 1, 1, 1), (2, 2, 1, 3), (3, 3, 2, 2), (5, 6, 1, 3), (9, 9, 1, 1), (6, 5, 2, 1)],
            vec![(1, 1, 1, 1), (2, 2, 1, 1), (3, 2, 1, 1), (2, 3, 1, 1), (4, 4, 1, 1), (5, 5, 1, 1), (3, 9, 1, 1), (9, 3, 1, 1), (8, 7, 1, 1), (1, 12, 1, 1), (12, 1, 1, 1), (2, 2, 1, 3), (3, 3, 2, 2), (5, 6, 1, 3), (9, 9, 1, 1), (6, 5, 2, 1),
                (16, 16, 1, 1), (17, 13, 1, 2), (13, 17, 2, 1), (33, 5, 1, 1), (5, 33, 1, 1), (20, 20, 1, 3), (10, 10, 1, 5), (7, 7, 4, 1), (3, 3, 1, 7), (40, 2, 1, 1), (2, 40, 1, 1)]);
        let fams = [4u64, 2, 13];
        let nf = k.pick(1, 3);
        let full = k.pick(4, 5);
        k.section("compress", shapes.len() as u64 * 6 * 2 * 2 * nf, |i, l| {
            let mut r = Radix(i);
            let s = r.of(&shapes);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 200]);
            c.block = r.of(&[2, 3]);
            let f = fams[r.n(nf) as usize];
            let lib = Prog::library(c.planes());
            let prog = lib[i as usize % lib.len()].clone();
            l.describe(format_args!("compress {:?} {:?} family {}", c, prog.ints(), f));
            let img = gen::image(f, &c);
            let (w, n) = ref_stream(&img, &c, &prog, false);
            let want = Seen::Compressed(Ok(as_bytes(&w, n).to_vec()));
            all_schedules(&Op::Compress { img, c, prog, cap: c.cap() }, &want, full, l)
        });
        k.section("decompress", shapes.len() as u64 * 6 * 2 * 2 * nf * 2, |i, l| {
            let mut r = Radix(i);
            let s = r.of(&shapes);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 200]);
            c.block = r.of(&[2, 3]);
            let f = fams[r.n(nf) as usize];
            let ds = r.n(2) as usize;
            if ds > c.max_ds() {
                return l.skip();
            }
            let lib = Prog::library(c.planes());
            let prog = lib[i as usize % lib.len()].clone();
            l.describe(format_args!("decompress {:?} {:?} family {} ds {}", c, prog.ints(), f, ds));
            let img = gen::image(f, &c);
            let (w, n) = ref_stream(&img, &c, &prog, false);
            let (dw, dh) = c.down(ds);
            let mut out = vec![0u8; dw * dh * c.planes()];
            assert_eq!(oracle::decompress(&w, n, ds, false, false, &mut out), 0);
            let want = Seen::Decoded(Ok(0), out);
            all_schedules(&Op::Decompress { data: as_bytes(&w, n).to_vec(), ds }, &want, full, l)
        });
        // images above the sizes at which the default features start to use threads
        let big = [(130u32, 130u32, 1u32, 1u32), (65, 65, 1, 2), (97, 97, 2, 1), (300, 60, 1, 1), (60, 300, 1, 1), (129, 128, 1, 3)];
        k.section("above-thresholds", 6 * 6 * 2 * 2 * 2, |i, l| {
            let mut r = Radix(i);
            let s = r.of(&big);
            let mut c = Cfg::new(s.0, s.1, s.2, s.3);
            c.filter = r.of(&FILTERS);
            c.enc = r.of(&ENCS);
            c.q = r.of(&[1024, 200]);
            c.block = r.of(&[3, 5]);
            let decode = r.bit();
            l.describe(format_args!("{} {:?}", if decode { "decompress" } else { "compress" }, c));
            let img = gen::image(4, &c);
            let (w, n) = ref_stream(&img, &c, &Prog::none(), false);
            if decode {
                let mut out = vec![0u8; c.pixels()];
                assert_eq!(oracle::decompress(&w, n, 0, false, false, &mut out), 0);
                all_policies(&Op::Decompress { data: as_bytes(&w, n).to_vec(), ds: 0 }, &Seen::Decoded(Ok(0), out), l)
            } else {
                let want = Seen::Compressed(Ok(as_bytes(&w, n).to_vec()));
                all_policies(&Op::Compress { img, c, prog: Prog::none(), cap: c.cap() }, &want, l)
            }
        });
        // failing and incomplete operations: the same error whatever comes first
        k.section("compress-small-buffer", 4 * 3 * 2 * k.pick(12, 40), |i, l| {
            let mut r = Radix(i);
            let s = r.of(&[(4u32, 4u32, 1u32, 1u32), (9, 9, 1, 1), (3, 3, 1, 3), (12, 2, 1, 1)]);
            let c = Cfg { enc: r.of(&ENCS), filter: r.of(&FILTERS), block: 2, ..Cfg::new(s.0, s.1, s.2, s.3) };
            let img = gen::image(4, &c);
            let prog = Prog::none();
            let (_, n) = ref_stream(&img, &c, &prog, false);
            let cap = n * (r.0 as usize + 1) / k_step(i);
            let op = Op::Compress { img, c, prog, cap };
            l.describe(format_args!("{}", l_desc(&op)));
            // whatever the in-order schedule says
            let (want, _) = run_policy(Policy::InOrder, || op.run());
            all_schedules(&op, &want, 3, l)
        });
        k.section("decompress-damaged", 3 * 3 * 2 * k.pick(16, 64), |i, l| {
            let mut r = Radix(i);
            let s = r.of(&[(4u32, 4u32, 1u32, 1u32), (9, 9, 1, 1), (3, 3, 1, 3)]);
            let c = Cfg { enc: r.of(&ENCS), filter: r.of(&FILTERS), block: 2, ..Cfg::new(s.0, s.1, s.2, s.3) };
            let img = gen::image(4, &c);
            let (w, n) = ref_stream(&img, &c, &Prog::none(), false);
            let mut data = as_bytes(&w, n).to_vec();
            let p = 36 + (r.0 as usize * 7919) % (data.len() - 36);
            if i & 1 == 0 {
                data.truncate(p);
            } else {
                data[p] ^= 0x55;
            }
            let op = Op::Decompress { data, ds: 0 };
            l.describe(format_args!("{:?} damaged at {} {}", c, p, l_desc(&op)));
            let (want, _) = run_policy(Policy::InOrder, || op.run());
            all_schedules(&op, &want, 3, l)
        });
        // every combination of few settings
        gen::settings_of(&mut k, 3, 1500, &[], |case, prog, img, l| {
            let c = case.c;
            let (w, n) = ref_stream(img, &c, prog, false);
            let (dw, dh) = c.down(case.ds);
            let mut out = vec![0u8; dw * dh * c.planes()];
            assert_eq!(oracle::decompress(&w, n, case.ds, false, false, &mut out), 0);
            few_policies(&Op::Compress { img: img.to_vec(), c, prog: prog.clone(), cap: c.cap() }, &Seen::Compressed(Ok(as_bytes(&w, n).to_vec())), case.family as usize, l)?;
            few_policies(&Op::Decompress { data: as_bytes(&w, n).to_vec(), ds: case.ds }, &Seen::Decoded(Ok(0), out), case.family as usize, l)
        });
        k.finish()
    }
    fn few_policies(op: &Op, want: &Seen, item: usize, l: &mut Local) -> Res {
        for p in POLICIES.into_iter().chain([Policy::Delay { item: 0, by: 1 }, Policy::Delay { item: item % 5, by: 1000 }]) {
            let (s, t) = run_policy(p, || op.run());
            l.op(t.moves);
            l.state(1);
            l.trace(1);
            ensure!(s == *want, "result differs: {} instead of {} [all regions {:?}]", brief(&s), brief(want), p);
        }
        Ok(())
    }
    fn k_step(i: u64) -> usize {
        [8, 10, 7][(i % 3) as usize]
    }
}
