//! C23: an operation's result depends on its arguments only: not on what ran before it, not on what runs while it
//! waits, not on what other threads do.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::processing::image::Image;
use gfwx::*;
use mc::codec::*;
use mc::ensure;
use mc::fw::*;
use mc::gen;
use std::sync::Arc;

type Run = Arc<dyn Fn() -> u64 + Send + Sync>;
#[derive(Clone)]
struct Op {
    name: String,
    run: Run,
}
fn op(name: String, f: impl Fn() -> String + Send + Sync + 'static) -> Op {
    // an operation may fail or panic; that is its result
    Op { name, run: Arc::new(move || hash(guarded(&f).unwrap_or_else(|e| e).as_bytes())) }
}

fn coding(v: &mut Vec<Op>, c: Cfg, family: u64, prog: &Prog, more: bool) {
    let img = gen::image(family, &c);
    let program = prog.build();
    let (i2, p2) = (img.clone(), program.clone());
    v.push(op(format!("compress {}x{} q{} e{} f{} image {} program {:?}", c.w, c.h, c.q, c.enc, c.filter, family, prog.ints()), move || format!("{:?}", compress(&i2, &c, &p2))));
    let s = compress(&img, &c, &program).unwrap();
    let s1 = s.clone();
    v.push(op(format!("decompress {}x{} q{} e{} f{} image {}", c.w, c.h, c.q, c.enc, c.filter, family), move || format!("{:?}", decompress(&s1, 0))));
    if more {
        let s1 = s.clone();
        v.push(op(format!("decompress at half size {}x{} e{}", c.w, c.h, c.enc), move || format!("{:?}", decompress(&s1, 1))));
        // one level and a half
        let cut = layout(&s, &c, prog).levels.iter().rev().nth(1).map_or(s.len() - 4, |l| 32 + l.3 + (s.len() - 32 - l.3) / 2);
        let s1 = s[..cut].to_vec();
        v.push(op(format!("decompress {} of {} bytes", cut, s.len()), move || format!("{:?}", decompress(&s1, 0))));
        let (i2, p2, n) = (img.clone(), program.clone(), s.len() - 5);
        v.push(op(format!("compress into {} of {} bytes", n, s.len()), move || format!("{:?}", compress_cap(&i2, &c, &p2, n))));
        let mut bad = s.clone();
        let at = bad.len() - 9;
        bad[at] ^= 0xff;
        v.push(op("decompress a damaged stream".into(), move || format!("{:?}", decompress(&bad, 0))));
        let s1 = s.clone();
        v.push(op("test a stream".into(), move || {
            let mut r = &s1[..];
            let h = Header::decode(&mut r).unwrap();
            format!("{:?}", decompress_simple(r, &h, 0, true, &mut []))
        }));
        let s1 = s.clone();
        v.push(op("decompress into a small buffer".into(), move || {
            let mut r = &s1[..];
            let h = Header::decode(&mut r).unwrap();
            format!("{:?}", decompress_simple(r, &h, 0, false, &mut [0; 3]))
        }));
    }
}

fn ops() -> Vec<Op> {
    let mut v = vec![];
    let c = Cfg { block: 2, ..Cfg::new(9, 7, 1, 3) };
    for (i, &enc) in ENCS.iter().enumerate() {
        for (j, &filter) in FILTERS.iter().enumerate() {
            let q = [1024, 200, 20][(i + j) % 3];
            coding(&mut v, Cfg { enc, filter, q, chroma: 8, ..c }, [4, 7, 2][i], &[Prog::yuv(), Prog::a710_bgr(), Prog::none()][(i + 2 * j) % 3], i == 2 && j == 1);
        }
    }
    // the same settings, other contents
    coding(&mut v, Cfg { enc: 2, filter: 1, q: 200, chroma: 8, ..c }, 13, &Prog::yuv(), false);
    coding(&mut v, Cfg { enc: 0, filter: 0, q: 1024, chroma: 8, ..c }, 3, &Prog::a710_rgb(), false);
    // the same number of samples, other arrangements; bigger; smallest
    coding(&mut v, Cfg { enc: 1, ..Cfg::new(7, 9, 3, 1) }, 4, &Prog::none(), false);
    coding(&mut v, Cfg { enc: 2, q: 77, chroma: 3, block: 2, filter: 1, ..Cfg::new(40, 31, 1, 2) }, 10, &Prog(vec![st(1, &[(0, -1)], 1, true)]), true);
    coding(&mut v, Cfg::new(1, 1, 1, 1), 4, &Prog::none(), false);
    // parts
    for (f, seed) in [(0u8, 5u64), (1, 6)] {
        v.push(op(format!("lift and unlift {}", f), move || {
            let mut d: Vec<i16> = (0..17 * 13).map(|i| (gen::mix(i + seed * 1000) % 255) as i16).collect();
            let go = |d: &mut [i16], back: bool| {
                let mut rows: Vec<&mut [i16]> = d.chunks_mut(17).collect();
                match (f, back) {
                    (0, false) => lifting::lift_linear(&mut rows),
                    (0, true) => lifting::unlift_linear(&mut rows),
                    (_, false) => lifting::lift_cubic(&mut rows),
                    (_, true) => lifting::unlift_cubic(&mut rows),
                }
            };
            go(&mut d, false);
            let a = format!("{:?}", d);
            go(&mut d, true);
            format!("{} {:?}", a, d)
        }));
    }
    v.push(op("quantise and back".into(), || {
        let mut d: Vec<i16> = (0..30 * 9).map(|i| (gen::mix(i) % 4001) as i16 - 2000).collect();
        quant::quantize(&mut d.chunks_mut(30).collect::<Vec<_>>(), 55, 0, 8192);
        let a = format!("{:?}", d);
        quant::dequantize(&mut d.chunks_mut(30).collect::<Vec<_>>(), 55, 0, 8192);
        format!("{} {:?}", a, d)
    }));
    v.push(op("rearrange".into(), || {
        let img: Vec<u8> = (0..60).collect();
        let mut p = vec![7i16; 60];
        interleaved_to_planar(&img, 4, 3, &mut p, &[1]);
        let mut back = vec![9u8; 60];
        planar_to_interleaved(&p, 4, 3, &mut back, &[2]);
        format!("{:?} {:?}", p, back)
    }));
    v.push(op("bad header".into(), || format!("{:?}", Header::decode(&mut &b"GFWX\x01\0\0\0\0\0\0\0junkjunkjunkjunkjunk"[..]).is_err())));
    v.push(op("bad program".into(), || {
        let mut flags = [false; 2];
        let r = ColorTransformProgram::decode(&mut &[0x12u8, 0x34, 0x56, 0x78, 1][..], &mut flags);
        format!("{:?} {:?}", r, flags)
    }));
    v.push(op("one block".into(), || {
        let mut d: Vec<i16> = (0..64).map(|i| (gen::mix(i * 3) % 41) as i16 - 20).collect();
        let mut out = vec![];
        for chunk in Image::from_slice(&mut d, (8, 8), 1).into_chunks_mut(4, 1) {
            let mut w = BitsIOWriter::new(&mut out);
            encode::encode(&chunk, &mut w, Encoder::Contextual, 500, true, false).unwrap();
            w.flush_write_word().unwrap();
        }
        let mut s = &out[..];
        for chunk in Image::from_slice(&mut d, (8, 8), 1).into_chunks_mut(4, 1) {
            encode::decode(chunk, &mut BitsIOReader::new(&mut s), Encoder::Contextual, 500, true, false).unwrap();
        }
        format!("{:?} {:?}", out, d)
    }));
    v
}

/// everything a program does with an image under some settings
fn digest(case: &gen::Case) -> u64 {
    let (prog, img) = gen::Cover::data(case);
    digest_of(case.c, &prog, img, case.ds)
}
fn digest_of(c: Cfg, prog: &Prog, img: Vec<u8>, ds: usize) -> u64 {
    let program = prog.build();
    let go = move || -> String {
        let s = match compress(&img, &c, &program) {
            Ok(s) => s,
            Err(e) => return e,
        };
        let half = &s[..s.len() / 8 * 4 + 16];
        let mut r = &s[..];
        let h = Header::decode(&mut r).unwrap();
        let test = decompress_simple(&half[32..], &h, ds, true, &mut []);
        format!("{:x} {:?} {:?} {:?} {:?}", hash(&s), decompress(&s, 0), decompress(half, ds), test, compress_cap(&img, &c, &program, s.len() / 2))
    };
    hash(guarded(&go).unwrap_or_else(|e| e).as_bytes())
}
const PIXELS: u64 = 500;
fn neighbors(fine: bool) -> gen::Cover {
    gen::cover(2, fine, PIXELS, &[])
}
fn pair_of(cover: &gen::Cover, i: u64) -> Option<(gen::Case, gen::Case)> {
    let (a, b) = (cover.case(i / gen::Cover::NEIGHBORS), cover.neighbor(i / gen::Cover::NEIGHBORS, i % gen::Cover::NEIGHBORS));
    (b.c.pixels() as u64 <= 4 * PIXELS).then_some((a, b))
}
/// Settings that agree in whatever summary one may take of them: the same number of samples or planes, of chroma channels,
/// of steps, the same sum of sizes, the same chroma quality, the same program but for the order or one number.
fn related() -> Vec<(Cfg, Prog)> {
    let mut v = vec![];
    let c = Cfg { q: 700, chroma: 9, block: 3, ..Cfg::new(20, 20, 1, 3) };
    for set in 0..8 {
        v.push((c, Prog((0..3).filter(|p| set >> p & 1 == 1).map(|p| st(p, &[], 1, true)).collect())));
    }
    for (a, b, d) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        v.push((c, Prog(vec![st(a, &[(b, -1)], 2, true), st(d, &[(a, 1)], 3, false)])));
        v.push((c, Prog(vec![st(a, &[(b, -1)], 3, false), st(d, &[(a, 1)], 2, true)])));
    }
    let two = Prog(vec![st(1, &[(0, -1)], 1, true)]);
    for (w, h) in [(20, 20), (19, 21), (21, 19), (10, 40), (40, 10), (25, 16), (16, 25), (20, 19), (4, 100), (400, 1), (1, 400)] {
        v.push((Cfg { w, h, ..c }, two.clone()));
    }
    for (layers, channels) in [(3, 1), (6, 1), (1, 6), (2, 3), (3, 2)] {
        v.push((Cfg { layers, channels, ..c }, two.clone()));
    }
    for (q, chroma) in [(702, 9), (78, 1), (156, 2), (700, 8), (703, 9), (9, 70)] {
        v.push((Cfg { q, chroma, ..c }, two.clone()));
    }
    for block in [2, 4, 5, 30] {
        v.push((Cfg { block, ..c }, two.clone()));
    }
    v
}
const RELATED: u64 = 8 + 12 + 11 + 5 + 6 + 4;
const RELATED_PAIRS: u64 = RELATED * RELATED * 6;
fn related_pair(i: u64) -> [(Cfg, Prog); 2] {
    let mut r = Radix(i);
    let all = related();
    let (enc, filter) = (r.of(&ENCS), r.of(&FILTERS));
    [r.n(RELATED), r.n(RELATED)].map(|j| {
        let (c, p) = all[j as usize].clone();
        (Cfg { enc, filter, ..c }, p)
    })
}
fn related_digest(x: &(Cfg, Prog)) -> u64 {
    digest_of(x.0, &x.1, gen::image(4, &x.0), 1)
}
/// Another process, which does the same things in the opposite order: whatever it remembers comes from the other one of a pair.
fn other_process(threads: usize) {
    use std::io::Write;
    let mut out = vec![];
    let all = ops();
    let mut base: Vec<u64> = all.iter().rev().map(|o| {
        let r = o.run.clone();
        std::thread::spawn(move || r()).join().unwrap()
    }).collect();
    base.reverse();
    for b in base {
        out.extend(b.to_le_bytes());
    }
    let cover = neighbors(std::env::var("C23_OTHER").unwrap() == "fine");
    let n = cover.len() * gen::Cover::NEIGHBORS;
    let step = n.div_ceil(threads as u64);
    let cover = &cover;
    let parts: Vec<Vec<u8>> = std::thread::scope(|s| {
        let t: Vec<_> = (0..threads as u64).map(|j| s.spawn(move || {
            let mut part = vec![];
            for i in (j * step).min(n)..((j + 1) * step).min(n) {
                let r = pair_of(cover, i).map_or((0, 0), |(a, b)| {
                    let b = digest(&b);
                    (digest(&a), b)
                });
                part.extend(r.0.to_le_bytes());
                part.extend(r.1.to_le_bytes());
            }
            part
        })).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    for p in parts {
        out.extend(p);
    }
    let step = RELATED_PAIRS.div_ceil(threads as u64);
    let parts: Vec<Vec<u8>> = std::thread::scope(|s| {
        let t: Vec<_> = (0..threads as u64).map(|j| s.spawn(move || {
            let mut part = vec![];
            for i in (j * step).min(RELATED_PAIRS)..((j + 1) * step).min(RELATED_PAIRS) {
                let [a, b] = related_pair(i);
                let b = related_digest(&b);
                part.extend(related_digest(&a).to_le_bytes());
                part.extend(b.to_le_bytes());
            }
            part
        })).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    for p in parts {
        out.extend(p);
    }
    std::io::stdout().write_all(&out).unwrap();
}

fn main() {
    let mut k = Check::new("C23");
    if std::env::var("C23_OTHER").is_ok() {
        return other_process(4);
    }
    let fine = k.thorough || k.variant() == "def";
    let other = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("C23_OTHER", if fine { "fine" } else { "coarse" })
        .stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let other = std::thread::spawn(move || -> Vec<u64> {
        other.wait_with_output().unwrap().stdout.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect()
    });
    // what each operation gives in a thread of its own
    let all = ops();
    let base: Vec<u64> = all.iter().map(|o| {
        let r = o.run.clone();
        std::thread::spawn(move || r()).join().unwrap()
    }).collect();
    let n = all.len() as u64;
    let same = |i: usize, l: &mut Local, context: &dyn Fn() -> String| -> Res {
        let r = (all[i].run)();
        l.op(1);
        l.trace(1);
        ensure!(r == base[i], "{} gives another result {}", all[i].name, context());
        Ok(())
    };
    // every pair in a new thread
    k.section("pairs-in-new-threads", n * n, |i, l| {
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        l.describe(format_args!("{}; {}", all[a].name, all[b].name));
        l.sample(|| format!("{}; {}", all[a].name, all[b].name));
        let (ra, rb) = (all[a].run.clone(), all[b].run.clone());
        let r = std::thread::spawn(move || (ra(), rb(), ra())).join().map_err(|_| "thread fails".to_string())?;
        l.op(3);
        l.trace(3);
        ensure!(r == (base[a], base[b], base[a]), "results change: {:?} instead of {:?}", r, (base[a], base[b], base[a]));
        l.outcome(r.0 ^ r.1.rotate_left(7));
        Ok(())
    });
    // every sequence, on long-lived threads
    // with the real pool each step costs more
    let depth = if cfg!(feature = "sched") { k.pick(3, 4) } else { 3 };
    k.section("sequences", pow(n, depth), |i, l| {
        let mut r = Radix(i);
        let seq: Vec<usize> = (0..depth).map(|_| r.n(n) as usize).collect();
        for (j, &o) in seq.iter().enumerate() {
            same(o, l, &|| format!("after {:?}", seq[..j].iter().map(|&o| &all[o].name).collect::<Vec<_>>()))?;
        }
        l.outcome(hash(format!("{:?}", seq).as_bytes()));
        Ok(())
    });
    // every operation many times over
    k.section("repetitions", n, |i, l| {
        for j in 0..600 {
            same(i as usize, l, &|| format!("at repetition {}", j))?;
            l.state(1);
        }
        Ok(())
    });
    // one operation, then another one so often that any 16-bit count of operations comes round to the first one
    if k.variant() != "par" {
        let mut few = vec![];
        let c = Cfg::new(3, 2, 1, 2);
        coding(&mut few, Cfg { q: 1024, enc: 0, filter: 0, ..c }, 4, &Prog::none(), false);
        coding(&mut few, Cfg { q: 30, enc: 0, filter: 0, ..c }, 4, &Prog::none(), false);
        coding(&mut few, Cfg { q: 200, enc: 2, filter: 1, chroma: 5, ..c }, 13, &Prog(vec![st(1, &[(0, -1)], 1, true)]), false);
        let base: Vec<u64> = few.iter().map(|o| {
            let r = o.run.clone();
            std::thread::spawn(move || r()).join().unwrap()
        }).collect();
        let m = few.len() as u64;
        k.section("counts", m * m, |i, l| {
            let (a, b) = ((i % m) as usize, (i / m) as usize);
            l.describe(format_args!("{}, then 66000 times {}", few[a].name, few[b].name));
            let (ra, rb, wa, wb) = (few[a].run.clone(), few[b].run.clone(), base[a], base[b]);
            let r = std::thread::spawn(move || -> Res {
                ensure!(ra() == wa, "the first one gives another result");
                for j in 0..66_000 {
                    ensure!(rb() == wb, "another result at repetition {}", j);
                }
                ensure!(ra() == wa, "the first one gives another result afterwards");
                Ok(())
            }).join().map_err(|_| "thread fails".to_string())?;
            l.op(66_002);
            l.trace(66_002);
            l.state(1);
            r
        });
    }
    #[cfg(feature = "sched")]
    {
        use mc::sched::{run_nested, Policy, POLICIES};
        // every operation inside every other one at every scheduling point: a worker that waits there runs it
        let deeper = k.thorough;
        k.section("nested", n * n * POLICIES.len() as u64, |i, l| {
            let mut r = Radix(i);
            let (a, b) = (r.n(n) as usize, r.n(n) as usize);
            let policy = r.of(&POLICIES);
            l.describe(format_args!("{} within {} ({:?})", all[b].name, all[a].name, policy));
            let nothing: fn() = || {};
            let (_, points) = run_nested(policy, Some(u64::MAX), nothing, || (all[a].run)());
            let step = if deeper { 1 } else { 1 + points / 12 };
            let at: Vec<Option<u64>> = [None].into_iter().chain((0..points).filter(|p| *p < 3 || *p + 3 > points || (p + i) % step == 0).map(Some)).collect();
            for at in at {
                if at.is_none() && points > 40 {
                    continue;
                }
                let wrong = std::rc::Rc::new(std::cell::Cell::new(false));
                let (w, rb, want) = (wrong.clone(), all[b].run.clone(), base[b]);
                let (ra, _) = run_nested(policy, at, move || w.set(w.get() | (rb() != want)), || (all[a].run)());
                l.op(2);
                l.trace(2);
                l.state(1);
                ensure!(!wrong.get(), "{} gives another result within {} at point {:?}", all[b].name, all[a].name, at);
                ensure!(ra == base[a], "{} gives another result when {} runs at its point {:?}", all[a].name, all[b].name, at);
            }
            l.count("scheduling points", points);
            Ok(())
        });
        // three deep
        k.section("nested-twice", n * n, |i, l| {
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            let c = ((i * 7 + i / n * 3 + 1) % n) as usize;
            l.describe(format_args!("{} within {} within {}", all[c].name, all[b].name, all[a].name));
            let wrong = std::rc::Rc::new(std::cell::Cell::new(false));
            for at in [0, 1, 2, 5, 9, 14] {
                let (w, rb, wb) = (wrong.clone(), all[b].run.clone(), base[b]);
                let (rc, wc) = (all[c].run.clone(), base[c]);
                let (ra, _) = run_nested(Policy::Reverse, Some(at), move || {
                    let (w2, rc) = (w.clone(), rc.clone());
                    let (r, _) = run_nested(Policy::Swap, Some(at / 2), move || w2.set(w2.get() | (rc() != wc)), || rb());
                    w.set(w.get() | (r != wb));
                }, || (all[a].run)());
                l.op(3);
                l.trace(3);
                l.state(1);
                ensure!(!wrong.get() && ra == base[a], "a result changes at point {}", at);
            }
            Ok(())
        });
    }
    // every pair at the same time on pools of all small sizes
    #[cfg(all(feature = "par", not(feature = "sched")))]
    {
        let sizes = [1usize, 2, 3, 8];
        let pools: Vec<rayon::ThreadPool> = sizes.iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
        let pools = &pools;
        k.section("joined", n * n * sizes.len() as u64, |i, l| {
            let mut r = Radix(i);
            let (a, b) = (r.n(n) as usize, r.n(n) as usize);
            let pool = r.n(sizes.len() as u64) as usize;
            l.describe(format_args!("{} and {} on {} threads", all[a].name, all[b].name, sizes[pool]));
            let (x, y) = pools[pool].install(|| rayon::join(|| (all[a].run)(), || (all[b].run)()));
            l.op(2);
            l.trace(2);
            ensure!((x, y) == (base[a], base[b]), "a result changes");
            Ok(())
        });
        // all at once, as items of a parallel iterator
        k.section("all-at-once", sizes.len() as u64 * 8, |i, l| {
            use rayon::prelude::*;
            let pool = (i % sizes.len() as u64) as usize;
            l.describe(format_args!("all operations on {} threads", sizes[pool]));
            let m = all.len();
            let got: Vec<u64> = pools[pool].install(|| (0..m * 4).into_par_iter().map(|j| (all[(j * 5 + i as usize) % m].run)()).collect());
            l.op(got.len() as u64);
            l.trace(got.len() as u64);
            for (j, g) in got.iter().enumerate() {
                ensure!(*g == base[(j * 5 + i as usize) % m], "{} changes", all[(j * 5 + i as usize) % m].name);
            }
            Ok(())
        });
    }
    // the other process did each of them after other ones
    let cover = neighbors(fine);
    let size = n + 2 * cover.len() * gen::Cover::NEIGHBORS + 2 * RELATED_PAIRS;
    let (waiting, results) = (std::sync::Mutex::new(Some(other)), std::sync::OnceLock::<Vec<u64>>::new());
    let other = || -> Result<&Vec<u64>, String> {
        let r = results.get_or_init(|| waiting.lock().unwrap().take().unwrap().join().unwrap());
        ensure!(r.len() as u64 == size, "a process that does the operations in the opposite order ends after {} of {} results", r.len(), size);
        Ok(r)
    };
    k.section("other-order", n, |i, l| {
        l.describe(format_args!("{}", all[i as usize].name));
        l.trace(1);
        ensure!(other()?[i as usize] == base[i as usize], "another result when the operations run in opposite order");
        Ok(())
    });
    // settings that differ in one thing only, one after the other, in both orders
    k.section("neighbors", cover.len() * gen::Cover::NEIGHBORS, |i, l| {
        let Some((a, b)) = pair_of(&cover, i) else { return l.skip() };
        l.describe(format_args!("{:?} family {} downsampling {}; {:?} family {} downsampling {}", a.c, a.family, a.ds, b.c, b.family, b.ds));
        let r = (digest(&a), digest(&b), digest(&a));
        l.op(3);
        l.trace(3);
        l.state(1);
        l.outcome(r.0);
        let other = other()?;
        let o = (other[(n + 2 * i) as usize], other[(n + 2 * i + 1) as usize]);
        ensure!(r.0 == r.2, "the first one changes");
        ensure!((r.0, r.1) == o, "results {:?} in this order, {:?} in a process with the opposite order", r, o);
        Ok(())
    });
    // settings that a cache with too short a key takes for each other
    k.section("related", RELATED_PAIRS, |i, l| {
        let [a, b] = related_pair(i);
        l.describe(format_args!("{:?} {:?}; {:?} {:?}", a.0, a.1.ints(), b.0, b.1.ints()));
        let r = (related_digest(&a), related_digest(&b), related_digest(&a));
        l.op(3);
        l.trace(3);
        l.state(1);
        l.outcome(r.0);
        let at = (size - 2 * RELATED_PAIRS + 2 * i) as usize;
        let o = (other()?[at], other()?[at + 1]);
        ensure!(r.0 == r.2, "the first one changes");
        ensure!((r.0, r.1) == o, "results {:?} in this order, {:?} in a process with the opposite order", r, o);
        Ok(())
    });
    k.finish()
}
