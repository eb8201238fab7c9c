//! C07: every prefix of a valid stream is noticed and decodes safely.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen, oracle};

fn prefixes(img: &[u8], c: &Cfg, prog: &Prog, dss: &[usize], every: bool, l: &mut Local) -> Res {
    let (w, n) = ref_stream(img, c, prog, false);
    let stream = as_bytes(&w, n);
    let lay = layout(stream, c, prog);
    let data = &stream[32..];
    let h = c.header();
    for &ds in dss {
        let last = lay.levels.iter().rposition(|v| v.0 >> ds >= 1).unwrap();
        let needed = lay.levels[last].3;
        let (dw, dh) = c.down(ds);
        let size = dw * dh * c.planes();
        let mut full = vec![0u8; size];
        assert_eq!(oracle::decompress(&w, n, ds, false, false, &mut full), 0);
        // whole stream followed by other data
        let mut longer = data.to_vec();
        longer.extend((0..37).map(|i| gen::mix(i) as u8));
        let ends = if every { (0..=longer.len()).collect() } else { lay.cuts(longer.len()) };
        for p in ends {
            let fill = 0x3Cu8;
            let mut out = vec![fill; size];
            let r = guarded(|| decompress_simple(&longer[..p], &h, ds, false, &mut out)).map_err(|e| format!("prefix {} of {} ds {}: {}", p, n, ds, e))?;
            l.op(1);
            l.state(1);
            let at = || format!("prefix of {} bytes (needed {}, layout {:?}), ds {}", p, needed, lay.levels, ds);
            match r {
                Ok(0) => {
                    ensure!(p >= needed, "{}: reported complete", at());
                    ensure!(out == full, "{}: pixel {:?} differs from the complete image", at(), first_diff(&out, &full));
                }
                Ok(next) => {
                    ensure!(p < needed, "{}: complete data reported incomplete ({})", at(), next);
                    // (inside a size table the format's guess may be exactly the supplied size)
                    ensure!(next >= p, "{}: next point of interest {} lies within the data", at(), next);
                    l.outcome(next as u64);
                }
                // an underflow style error: the data ends inside of something
                Err(DecompressError::Underflow) => ensure!(p < needed, "{}: underflow", at()),
                Err(DecompressError::IOErr(_)) => ensure!(p < needed, "{}: io error", at()),
                Err(e) => return Err(format!("{}: {:?}", at(), e)),
            }
            // ends inside the data of the last level that is needed: what is missing is exactly known
            if p > lay.levels[last].2 && p < needed {
                match r {
                    Ok(n) => ensure!(n == needed, "{}: next point of interest {} is not the end of the needed data", at(), n),
                    Err(e) => return Err(format!("{}: fails inside the last level: {:?}", at(), e)),
                }
                // the reference counts whole words
                let words = p / 4 * 4;
                if words > lay.levels[last].2 {
                    let mut want = vec![0u8; size];
                    let rr = oracle::decompress(&w, words + 32, ds, false, false, &mut want);
                    ensure!(rr == needed as isize + 32, "reference reports {} {}", rr, at());
                    ensure!(out == want, "{}: pixel {:?} differs from the image of the received blocks", at(), first_diff(&out, &want));
                    l.trace(1);
                    l.count("last_level_prefixes", 1);
                }
            }
            // ends after a whole level
            if let Some(k) = lay.levels[..last].iter().position(|v| v.3 == p) {
                let next = match r {
                    Ok(n) => n,
                    Err(e) => return Err(format!("{}: fails after a whole level: {:?}", at(), e)),
                };
                ensure!(next > p, "{}: next point of interest {} lies within the data", at(), next);
                ensure!(next <= lay.levels[k + 1].3.max(lay.levels[k + 1].1 + 16 * lay.blocks[k].len()), "{}: next point of interest {} lies behind the next level", at(), next);
                let mut want = vec![0u8; size];
                let rr = oracle::decompress(&w, p + 32, ds, false, false, &mut want);
                assert!(rr > 0);
                ensure!(next == rr as usize - 32, "{}: next point of interest {} instead of {}", at(), next, rr - 32);
                ensure!(out == want, "{}: pixel {:?} differs from the image of the received levels", at(), first_diff(&out, &want));
                l.trace(1);
                l.count("whole_level_prefixes", 1);
            }
        }
        l.trace(1);
        l.sample(|| format!("{:?} {:?} ds {} stream {} bytes levels {:?}", c, prog.ints(), ds, n, lay.levels));
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C07");
    let m = k.pick(10, 18);
    k.section("all-shapes", m * m * 6 * 2 * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.filter = r.of(&FILTERS);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 7]);
        let f = r.of(&[4u64, 6, 0]);
        c.q = [1024, 200][(i & 1) as usize];
        l.describe(format_args!("{:?} family {}", c, f));
        prefixes(&gen::image(f, &c), &c, &Prog::none(), &(0..=c.max_ds()).collect::<Vec<_>>(), true, l)
    });
    let shapes = [(6u32, 6u32), (9, 5), (16, 3), (3, 20), (11, 12), (17, 17), (1, 40), (33, 6), (24, 24)];
    let ns = k.pick(6, 9);
    k.section("settings", ns * 3 * 4 * 3 * 3 * 3, |i, l| {
        let mut r = Radix(i);
        let s = shapes[r.n(ns) as usize];
        let mut c = Cfg::new(s.0, s.1, r.n(3) as u32 + 1, r.n(4) as u32 + 1);
        c.enc = r.of(&ENCS);
        c.block = r.of(&[2, 3, 7]);
        c.q = r.of(&[1024, 90, 7]);
        c.filter = (i % 2) as u8;
        c.chroma = 4;
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        let f = [4u64, 6, 13, 2][(i % 4) as usize];
        l.describe(format_args!("{:?} {:?} family {}", c, prog.ints(), f));
        prefixes(&gen::image(f, &c), &c, prog, &[0, 1 + (i as usize % 3).min(c.max_ds() - 1)], true, l)
    });
    // larger images, cut at and near every boundary
    let nm = k.pick(7, MANY.len() as u64);
    k.section("large", nm * 6 * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let (block, q) = (r.of(&[7, 2, 4]), r.of(&[1024, 100]));
        let s = MANY[r.n(nm) as usize];
        let c = Cfg { filter, enc, block, q, chroma: 4, ..Cfg::new(s.0, s.1, s.2, s.3) };
        let lib = Prog::library(c.planes());
        let prog = &lib[(i as usize / 5) % lib.len()];
        l.describe(format_args!("{:?} {:?}", c, prog.ints()));
        prefixes(&gen::image([4, 6, 13][i as usize % 3], &c), &c, prog, &[0, 1, c.max_ds() / 2], false, l)
    });
    // every combination of few settings
    gen::settings_of(&mut k, 3, 2_000, &[], |case, prog, img, l| prefixes(img, &case.c, prog, &[case.ds], false, l));
    k.finish()
}
