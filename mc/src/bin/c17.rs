//! C17: the entropy stage restores every coefficient, each coded by exactly one block of one level.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::processing::image::Image;
use gfwx::{encode, Encoder};
use mc::codec::*;
use mc::fw::*;
use mc::{decide, ensure, gen, oracle};
use std::collections::HashMap;

fn scheme(e: u8) -> Encoder {
    match e {
        0 => Encoder::Turbo,
        1 => Encoder::Fast,
        _ => Encoder::Contextual,
    }
}

#[derive(Clone, Copy, Debug)]
struct P {
    w: usize,
    h: usize,
    planes: usize,
    block: u32,
    enc: u8,
    q: i32,
    chroma: bool,
}

fn top(w: usize, h: usize) -> usize {
    let mut s = 1;
    while s * 2 < w || s * 2 < h {
        s *= 2;
    }
    s
}

/// encodes all levels as the format prescribes, checks the bytes of each block against the
/// reference and decodes into a plane of unknown contents
fn planes(d: &[i16], p: &P, l: &mut Local) -> Res {
    planes_(d, p, l, true)
}
fn planes_(d: &[i16], p: &P, l: &mut Local, against_reference: bool) -> Res {
    let n = p.w * p.h;
    let mut src = d.to_vec();
    let mut dst = vec![0x5a5ai16; d.len()];
    let mut step = top(p.w, p.h);
    let mut dc = true;
    let mut out = vec![0u8; n.min(1 << 20) * 12 + 64];
    let mut expect = vec![0u32; out.len() / 4];
    let mut seen = vec![0u8; d.len()];
    let mut reference = d.to_vec();
    loop {
        let bs = step << p.block;
        // tiles, independent of the implementation
        let mut tiles = vec![];
        for c in 0..p.planes {
            for y in (0..p.h).step_by(bs) {
                for x in (0..p.w).step_by(bs) {
                    tiles.push((c, x, y));
                }
            }
        }
        let mut streams = vec![];
        let mut at = 0;
        for chunk in Image::from_slice(&mut src, (p.w, p.h), p.planes).into_chunks_mut(bs, step) {
            ensure!(at < tiles.len(), "{:?} step {}: more than {} blocks", p, step, tiles.len());
            let (c, x, y) = tiles[at];
            ensure!((chunk.channel, chunk.x_range.0, chunk.y_range.0) == (c, x, y) && chunk.x_range.1 == (x + bs).min(p.w) && chunk.y_range.1 == (y + bs).min(p.h) && chunk.step == step,
                "{:?} step {}: block {} is ({}, {:?}, {:?}), not ({}, {}, {})", p, step, at, chunk.channel, chunk.x_range, chunk.y_range, c, x, y);
            let has_dc = dc && x == 0 && y == 0;
            let used = {
                let total = out.len();
                let mut s: &mut [u8] = &mut out;
                {
                    let mut b = BitsIOWriter::new(&mut s);
                    encode::encode(&chunk, &mut b, scheme(p.enc), p.q, has_dc, p.chroma).map_err(|e| format!("{:?}: {:?}", p, e))?;
                    b.flush_write_word().map_err(|e| format!("{:?}: {:?}", p, e))?;
                }
                total - s.len()
            };
            l.op(1);
            if against_reference {
                let words = oracle::encode_block(&mut reference[c * n..(c + 1) * n], p.w, p.h, (x, (x + bs).min(p.w)), (y, (y + bs).min(p.h)), step, p.enc, p.q, has_dc, p.chroma, &mut expect);
                ensure!(&out[..used] == as_bytes(&expect, words * 4), "{:?} step {} block {:?}: {} instead of {} for {:?}", p, step, tiles[at], hex(&out[..used.min(200)]), hex(&as_bytes(&expect, words * 4)[..(words * 4).min(200)]), &d[..d.len().min(60)]);
            }
            l.outcome(hash(&out[..used]));
            streams.push(out[..used].to_vec());
            at += 1;
        }
        ensure!(at == tiles.len(), "{:?} step {}: {} blocks instead of {}", p, step, at, tiles.len());
        ensure!(src == d, "{:?} step {}: encoding changes coefficients", p, step);
        // decode in an order that differs from the encoding order: blocks are independent
        let mut todo: Vec<_> = Image::from_slice(&mut dst, (p.w, p.h), p.planes).into_chunks_mut(bs, step).zip(&streams).zip(&tiles).collect();
        if step % 3 == 1 {
            todo.reverse();
        }
        for ((chunk, s), &(_, x, y)) in todo {
            let mut s: &[u8] = s;
            let mut r = BitsIOReader::new(&mut s);
            encode::decode(chunk, &mut r, scheme(p.enc), p.q, dc && x == 0 && y == 0, p.chroma).map_err(|e| format!("{:?} step {}: decoding fails: {:?}", p, step, e))?;
            drop(r);
            ensure!(s.is_empty(), "{:?} step {}: {} bytes are left", p, step, s.len());
            l.op(1);
        }
        // this level wrote its coefficients and nothing else
        for c in 0..p.planes {
            for y in (0..p.h).step_by(step) {
                for x in (0..p.w).step_by(step) {
                    let i = c * n + y * p.w + x;
                    let new = (x | y) & step != 0 || (dc && x == 0 && y == 0);
                    seen[i] += new as u8;
                }
            }
        }
        for i in 0..d.len() {
            let want = if seen[i] == 1 { d[i] } else { 0x5a5a };
            ensure!(dst[i] == want, "{:?} step {}: coefficient {} of plane {} is {}, not {}", p, step, i % n, i / n, dst[i], want);
        }
        dc = false;
        if step == 1 {
            break;
        }
        step /= 2;
    }
    assert!(reference == d, "the reference changes coefficients");
    ensure!(seen.iter().all(|&s| s == 1), "{:?}: harness", p);
    l.trace(1);
    Ok(())
}

// ---- an independent model of the sequential coders, over coefficient sequences ----

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Coder {
    enc: u8,
    q: i32,
    chroma: bool,
    rc: u32,
    run: u32,
    c0: u32,
    c1: u32,
}
impl Coder {
    fn new(enc: u8, q: i32, step: i32, chroma: bool) -> Coder {
        let rc = (enc == 0 && (q == 0 || (step < 2048 && q * step < 2048))) as u32;
        Coder { enc, q, chroma, rc, run: 0, c0: 0, c1: 0 }
    }
    fn symbol(&self, s: i64, b: &mut BitModel) {
        let (c0, c1) = (u64::from(self.c0), u64::from(self.c1));
        let sq = c0.wrapping_mul(c0) & 0xffff_ffff;
        let lim = |m: u64, a: u64| (m * c1 + a) & 0xffff_ffff;
        if sq < lim(2, if self.chroma { 250 } else { 100 }) {
            b.interleaved(s, 0)
        } else if sq < lim(2, 950) {
            b.interleaved(s, 1)
        } else if sq < lim(3, 3000) {
            if sq < lim(5, 400) { b.signed(s, 1) } else { b.interleaved(s, 2) }
        } else if sq < lim(3, 12000) {
            if sq < lim(5, 3000) { b.signed(s, 2) } else { b.interleaved(s, 3) }
        } else if sq < lim(4, 44000) {
            if sq < lim(6, 12000) { b.signed(s, 3) } else { b.interleaved(s, 4) }
        } else {
            b.signed(s, 4)
        }
    }
    /// codes `s`, whose ancestor is `anc` (contextual encoder, first row of a block)
    fn step(&mut self, s: i16, anc: i16, b: &mut BitModel) {
        let mut s = i64::from(s);
        if self.rc != 0 && s == 0 {
            self.run += 1;
            return;
        }
        if self.rc != 0 {
            b.unsigned(u64::from(self.run), self.rc);
            self.run = 0;
            if s < 0 {
                s += 1;
            }
        }
        if self.enc == 0 {
            b.interleaved(s, 1);
            return;
        }
        if self.enc == 2 {
            let a = i64::from(anc).unsigned_abs();
            self.c0 = ((a * 2 * 16 + 1) / 2) as u32;
            let m = a.min(4096);
            self.c1 = ((m * m * 2 * 16 + 1) / 2) as u32;
        }
        self.symbol(s, b);
        if self.enc == 1 {
            let t = s.unsigned_abs() as u32;
            self.c0 = ((self.c0 * 15 + 7) >> 4) + t;
            self.c1 = ((self.c1 * 15 + 7) >> 4) + t.min(4096) * t.min(4096);
        }
        if (s == 0) == (self.rc == 0) {
            let (c0, c1) = (u64::from(self.c0), u64::from(self.c1));
            self.rc = if self.enc == 1 {
                match c0 { 0 => 4, 1 => 3, 2..=3 => 2, 4..=7 => 1, _ => 0 }
            } else if self.q == 1024 {
                (c0 < 2) as u32
            } else {
                let sq2 = (c0 * c0 * 2) & 0xffff_ffff;
                if c0 < 4 && c1 < 2 { 4 } else if c0 < 8 && c1 < 4 { 3 } else if sq2 < 3 * c1 + 48 { 2 } else if sq2 < 5 * c1 + 32 { 1 } else { 0 }
            };
        }
        if self.enc == 2 {
            // nothing of the context is kept
            self.c0 = 0;
            self.c1 = 0;
        }
    }
    fn end(&self, b: &mut BitModel) {
        if self.run != 0 {
            b.unsigned(u64::from(self.run), self.rc);
        }
    }
}

/// codes the sequence as the first row of one block; `seq`: (coefficient, ancestor)
fn row(seq: &[(i16, i16)], enc: u8, q: i32, chroma: bool, l: &mut Local) -> Res {
    let mut m = Coder::new(enc, q, 1, chroma);
    let mut b = BitModel::default();
    // columns 1, 3 share the ancestor at column 2, and so on
    let w = seq.len() * 2 + 1;
    let mut d = vec![0i16; w];
    for (j, &(s, a)) in seq.iter().enumerate() {
        d[2 * j + 1] = s;
        if j % 2 == 0 {
            d[2 * j + 2] = a;
        }
        // the last ancestor lies inside the row
        m.step(s, seq[j & !1].1, &mut b);
    }
    m.end(&mut b);
    let want = b.bytes();
    let mut out = vec![0u8; want.len() + 64];
    let n = out.len();
    let used = {
        let chunk = Image::from_slice(&mut d, (w, 1), 1).into_chunks_mut(1 << 20, 1).next().unwrap();
        let mut s: &mut [u8] = &mut out;
        {
            let mut b = BitsIOWriter::new(&mut s);
            encode::encode(&chunk, &mut b, scheme(enc), q, false, chroma).map_err(|e| format!("{:?}", e))?;
            b.flush_write_word().map_err(|e| format!("{:?}", e))?;
        }
        n - s.len()
    };
    ensure!(out[..used] == want[..], "encoder {} q {} chroma {} sequence {:?}: {} instead of {}", enc, q, chroma, seq, hex(&out[..used]), hex(&want));
    let mut r = d.clone();
    for j in 0..seq.len() {
        r[2 * j + 1] = 0x1234;
    }
    let chunk = Image::from_slice(&mut r, (w, 1), 1).into_chunks_mut(1 << 20, 1).next().unwrap();
    let mut s: &[u8] = &out[..used];
    let mut rd = BitsIOReader::new(&mut s);
    encode::decode(chunk, &mut rd, scheme(enc), q, false, chroma).map_err(|e| format!("encoder {} q {} {:?}: {:?}", enc, q, seq, e))?;
    ensure!(r == d, "encoder {} q {} chroma {} sequence {:?} is decoded as {:?}", enc, q, chroma, seq, r);
    ensure!(s.is_empty(), "encoder {} q {} sequence {:?}: {} bytes are left", enc, q, seq, s.len());
    l.op(2);
    l.trace(1);
    Ok(())
}

/// breadth first search over the states of the model; returns a shortest input for each
fn reachable(start: Coder, alphabet: &[(i16, i16)], limit: usize, max_run: u32) -> (Vec<Vec<(i16, i16)>>, usize, bool) {
    let mut seen: HashMap<(Coder, bool, i16), usize> = HashMap::new();
    let mut states: Vec<(Coder, usize, (i16, i16), usize)> = vec![(start, usize::MAX, (0, 0), 0)];
    seen.insert((start, false, 0), 0);
    let mut at = 0;
    let mut complete = true;
    let mut depth = 0;
    while at < states.len() {
        let (c, _, last, d) = states[at];
        depth = d;
        for &(s, a) in alphabet {
            // two neighbours share an ancestor: the second must agree with the first
            let odd = d % 2 == 1;
            if start.enc == 2 && odd && a != last.1 {
                continue;
            }
            let mut n = c;
            n.step(s, a, &mut BitModel::default());
            if n.run > max_run {
                continue;
            }
            let key = (n, start.enc == 2 && !odd, if start.enc == 2 && !odd { a } else { 0 });
            if !seen.contains_key(&key) {
                if states.len() >= limit {
                    complete = false;
                    continue;
                }
                seen.insert(key, states.len());
                states.push((n, at, (s, a), d + 1));
            }
        }
        at += 1;
    }
    let paths = (0..states.len()).map(|i| {
        let mut v = vec![];
        let mut i = i;
        while states[i].1 != usize::MAX {
            v.push(states[i].2);
            i = states[i].1;
        }
        v.reverse();
        v
    }).collect();
    (paths, depth, complete)
}

fn main() {
    let mut k = Check::new("C17");

    // every transition of every reachable coder state
    let small: Vec<i16> = vec![0, 1, -1, 2, -3, 6, -13, 27, 60, -150, 700, -2040, 4095, -4097, 16320, i16::MAX, i16::MIN];
    let fine: Vec<i16> = (-20..=20).chain([28, -35, 50, 99, -200, 511, 1000, -2040, 4096, -8160, i16::MAX, i16::MIN]).collect();
    let ancestors: Vec<i16> = vec![0, 1, -1, 2, 3, -4, 5, 6, 7, -8, 9, 11, 14, 20, 33, 55, -80, 130, 255, 1000, -4096, 5000, i16::MAX, i16::MIN];
    let mut plans = vec![];
    for chroma in [false, true] {
        plans.push((1u8, 300, chroma, small.iter().map(|&s| (s, 0)).collect::<Vec<_>>(), k.pick(400_000usize, 4_000_000), 40u32));
        plans.push((1, 300, chroma, fine.iter().map(|&s| (s, 0)).collect(), k.pick(100_000, 1_500_000), 12));
        for q in [1, 1023, 1024] {
            plans.push((2, q, chroma, ancestors.iter().flat_map(|&a| fine.iter().map(move |&s| (s, a))).collect(), k.pick(4_000, 4_000), 40));
        }
    }
    for q in [0, 1, 2047, 2048] {
        plans.push((0, q, false, fine.iter().map(|&s| (s, 0)).collect(), 4000, 3000));
    }
    for (j, (enc, q, chroma, alphabet, limit, max_run)) in plans.into_iter().enumerate() {
        let name = format!("coder-states-{}-enc{}-q{}-chroma{}", j, enc, q, chroma as u8);
        let (paths, depth, complete) = reachable(Coder::new(enc, q, 1, chroma), &alphabet, limit, max_run);
        k.section(&name, paths.len() as u64, |i, l| {
            let path = &paths[i as usize];
            let mut seq = path.clone();
            for &(s, a) in &alphabet {
                if enc == 2 && path.len() % 2 == 1 && a != path[path.len() - 1].1 {
                    continue;
                }
                seq.push((s, a));
                row(&seq, enc, q, chroma, l)?;
                seq.pop();
                l.count("coder transitions replayed", 1);
            }
            l.outcome(hash(format!("{:?}", path).as_bytes()));
            l.sample(|| format!("state reached by {:?}; search {} at depth {}", path, if complete { "complete" } else { "bounded by states" }, depth));
            Ok(())
        });
    }

    // the start of run coding in the turbo encoder: every quality and step
    let steps: Vec<usize> = (0..13).map(|b| 1 << b).collect();
    let qs: Vec<i32> = if k.thorough { (0..=1024).collect() } else { (0..=1024).filter(|q| q % 11 == 0 || (q & (q - 1)) == 0 || ((q + 1) & q) == 0 || *q < 20).collect() };
    k.section("turbo-threshold", steps.len() as u64 * qs.len() as u64 * 3, |i, l| {
        let mut r = Radix(i);
        let enc = r.n(3) as u8;
        let step = r.of(&steps);
        let q = qs[r.n(qs.len() as u64) as usize];
        // a plane with coefficients only at multiples of the step, two rows of them
        let (w, h) = (step * 5 + 1, if step > 64 { 1 } else { step + 1 });
        let mut d = vec![0i16; w * h];
        for (j, x) in (0..w).step_by(step).enumerate() {
            d[x] = [3, 0, -1, 5, 0, 1][j % 6];
        }
        if h > 1 {
            for (j, x) in (0..w).step_by(step).enumerate() {
                d[step * w + x] = [0, 0, 2, 0, -7, 0][j % 6];
            }
        }
        let mut out = vec![0u8; 1024];
        let mut copy = d.clone();
        let chunk = Image::from_slice(&mut copy, (w, h), 1).into_chunks_mut(step << 7, step).next().unwrap();
        let mut s: &mut [u8] = &mut out;
        {
            let mut b = BitsIOWriter::new(&mut s);
            encode::encode(&chunk, &mut b, scheme(enc), q, true, false).map_err(|e| format!("{:?}", e))?;
            b.flush_write_word().map_err(|e| format!("{:?}", e))?;
        }
        let used = 1024 - s.len();
        let mut expect = vec![0u32; 256];
        let mut plane = d.clone();
        let words = oracle::encode_block(&mut plane, w, h, (0, w), (0, h), step, enc, q, true, false, &mut expect);
        l.op(1);
        ensure!(&out[..used] == as_bytes(&expect, words * 4), "encoder {} q {} step {}: {} instead of {}", enc, q, step, hex(&out[..used]), hex(as_bytes(&expect, words * 4)));
        // coarser coefficients are known, those of this block are not
        let mut back = d.clone();
        for y in (0..h).step_by(step) {
            for x in (0..w).step_by(step) {
                if (x | y) & step != 0 || x | y == 0 {
                    back[y * w + x] = 0x5a5a;
                }
            }
        }
        let chunk = Image::from_slice(&mut back, (w, h), 1).into_chunks_mut(step << 7, step).next().unwrap();
        let mut s: &[u8] = &out[..used];
        encode::decode(chunk, &mut BitsIOReader::new(&mut s), scheme(enc), q, true, false).map_err(|e| format!("encoder {} q {} step {}: {:?}", enc, q, step, e))?;
        for y in (0..h).step_by(step) {
            for x in (0..w).step_by(step) {
                if (x | y) & step != 0 || x | y == 0 {
                    ensure!(back[y * w + x] == d[y * w + x], "encoder {} q {} step {}: ({}, {}) is {}", enc, q, step, x, y, back[y * w + x]);
                }
            }
        }
        l.outcome(hash(&out[..used]));
        l.trace(1);
        Ok(())
    });

    // all contents of small planes
    const A3: [i16; 3] = [0, -2, 31];
    const B3: [i16; 3] = [0, 1, i16::MIN];
    const A2: [i16; 2] = [0, -1];
    let tiny: Vec<(usize, usize)> = (1..=9).flat_map(|w| (1..=9).map(move |h| (w, h))).filter(|&(w, h)| w * h <= 16).collect();
    let budget = k.pick(7_000u64, 180_000);
    let plan: Vec<(usize, usize, u64, u64)> = tiny.iter().flat_map(|&(w, h)| {
        [3u64, 2].iter().filter_map(move |&a| {
            let n = a.checked_pow((w * h) as u32)?;
            (n <= budget.max(if a == 2 { 65536 } else { 0 })).then_some((w, h, a, n))
        }).take(1)
    }).collect();
    let total: u64 = plan.iter().map(|p| p.3).sum();
    k.section("all-contents", total * 2, |i, l| {
        let second = i % 2 == 1;
        let mut i = i / 2;
        for &(w, h, a, n) in &plan {
            if i < n {
                let alphabet: &[i16] = if a == 2 { &A2 } else if second { &B3 } else { &A3 };
                let d = gen::by_digits16(i, alphabet, w * h);
                for enc in ENCS {
                    for (q, chroma) in if second { [(1024, true), (20, false)] } else { [(1024, false), (600, true)] } {
                        planes(&d, &P { w, h, planes: 1, block: 2, enc, q, chroma }, l)?;
                    }
                }
                return Ok(());
            }
            i -= n;
        }
        unreachable!()
    });

    // every shape and block size, structured contents
    let thorough = k.thorough;
    let m = k.pick(33u64, 40);
    let fams: Vec<u64> = if k.thorough { (0..32).collect() } else { vec![4, 6, 10, 15, 22, 24, 25, 27, 29] };
    k.section("shapes", m * m * 6, |i, l| {
        let mut r = Radix(i);
        let block = r.of(&[2u32, 3, 4, 5, 7, 30]);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        for (j, &f) in fams.iter().enumerate() {
            if !(thorough || j % 3 == (w + h + block as usize) % 3) {
                continue;
            }
            let d = coefs(f, w, h, 1);
            for enc in ENCS {
                let q = [1024, 1, 100, 1023, 512][(w + 3 * h + j) % 5];
                let p = P { w, h, planes: 1, block, enc, q, chroma: (w + h + j) % 2 == 1 };
                l.describe(format_args!("{:?} family {}", p, f));
                planes(&d, &p, l)?;
                l.state(1);
            }
        }
        Ok(())
    });
    // an impulse at every position: every neighbour that the contexts look at
    let m = k.pick(14u64, 22);
    k.section("impulses", m * m * 3, |i, l| {
        let mut r = Radix(i);
        let block = r.of(&[2u32, 3, 6]);
        let (w, h) = (r.n(m) as usize + 1, r.n(m) as usize + 1);
        for base in [0i16, 1] {
            let mut d = vec![base; w * h];
            for at in 0..w * h {
                for v in [2i16, -9, 70, 1200, i16::MIN] {
                    d[at] = v;
                    for (enc, q) in [(2u8, 1024), (2, 30), (1, 500)] {
                        planes(&d, &P { w, h, planes: 1, block, enc, q, chroma: at % 2 == 1 }, l)?;
                    }
                    l.state(1);
                }
                d[at] = base;
            }
        }
        Ok(())
    });
    // more planes, and larger ones
    let big = [(64, 64), (65, 63), (129, 17), (17, 129), (300, 5), (5, 300), (128, 128), (130, 127), (257, 70), (1, 4100), (4100, 1)];
    k.section("large", big.len() as u64 * 3 * 4 * 8, |i, l| {
        let mut r = Radix(i);
        let (w, h) = r.of(&big);
        let enc = r.n(3) as u8;
        let block = r.of(&[2, 3, 6, 7]);
        let f = r.of(&[4, 6, 10, 16, 24, 25, 26, 29]);
        let n = 1 + (i % 3) as usize;
        let d = coefs(f, w, h, n);
        let p = P { w, h, planes: n, block, enc, q: [1024, 10, 700][i as usize % 3], chroma: i % 2 == 1 };
        l.describe(format_args!("{:?} family {}", p, f));
        planes(&d, &p, l)
    });
    // blocks never influence the image
    let m = k.pick(20u64, 34);
    k.section("block-size-independence", m * m * 3 * 2, |i, l| {
        let mut r = Radix(i);
        let enc = r.n(3) as u8;
        let filter = r.n(2) as u8;
        let (w, h) = (r.n(m) as u32 + 1, r.n(m) as u32 + 1);
        let mut c = Cfg { enc, filter, q: [1024, 300, 40, 1][(i % 4) as usize], chroma: 1 + (i % 9) as u32, ..Cfg::new(w, h, 1 + (i % 2) as u32, 3) };
        let img = gen::image(i % gen::FAMILIES, &c);
        let prog = if i % 5 == 0 { Prog::none() } else { Prog::yuv() };
        for ds in 0..=c.max_ds().min(2) {
            let mut first: Option<Vec<u8>> = None;
            for block in [2, 3, 4, 5, 6, 7, 12, 20] {
                c.block = block;
                let s = compress(&img, &c, &prog.build())?;
                let (r, out) = decompress(&s, ds)?;
                l.op(2);
                ensure!(r == 0, "{:?}: decoding reports {}", c, r);
                match &first {
                    None => first = Some(out),
                    Some(f) => ensure!(*f == out, "{:?} ds {}: the image differs from that with blocks of 2^2", c, ds),
                }
                l.state(1);
                l.outcome(hash(&s));
            }
        }
        l.trace(1);
        Ok(())
    });
    // runs and blocks beyond 16 bits
    let shapes = if k.variant() == "chk" { 3 } else { k.pick(7, gen::HUGE.len() as u64) };
    k.section("huge", shapes * gen::HUGE_CASES, |i, l| {
        let (c, f) = gen::huge(i);
        let (w, h) = (c.w as usize, c.h as usize);
        let mut d = vec![0i16; w * h];
        match f {
            12 => d[w * h - 1] = -300,
            11 => d[w * h / 3 * 2] = 1,
            _ => d.iter_mut().enumerate().for_each(|(j, v)| if gen::mix(j as u64) % 8191 == 0 { *v = (j % 77) as i16 - 38 }),
        }
        let p = P { w, h, planes: 1, block: c.block, enc: c.enc, q: [1024, 10][c.filter as usize], chroma: c.filter == 1 };
        l.describe(format_args!("{:?} family {}", p, f));
        planes(&d, &p, l)
    });
    // the same for whole streams with more blocks than 16 bits count
    k.section("huge-streams", k.pick(7, gen::HUGE.len() as u64) * 6, |i, l| {
        let mut r = Radix(i);
        let (enc, filter) = (r.of(&ENCS), r.of(&[0u8, 1]));
        let (w, h) = gen::HUGE[r.0 as usize];
        let mut c = Cfg { enc, filter, q: [1024, 100][(i % 2) as usize], ..Cfg::new(w, h, 1, 1) };
        let img = gen::image([4, 6][(i / 2 % 2) as usize], &c);
        let mut first: Option<Vec<u8>> = None;
        for block in [2, 7, 30] {
            c.block = block;
            l.describe(format_args!("{:?}", c));
            let (r, out) = decompress(&compress(&img, &c, &gfwx::ColorTransformProgram::new())?, 0)?;
            l.op(2);
            ensure!(r == 0, "{:?}: decoding reports {}", c, r);
            match &first {
                None => {
                    ensure!(c.q != 1024 || out == img, "{:?}: sample {:?} is not restored", c, first_diff(&out, &img));
                    first = Some(out)
                }
                Some(f) => ensure!(*f == out, "{:?}: the image differs from that with blocks of 2^2", c),
            }
        }
        l.trace(1);
        Ok(())
    });
    // every decision of the coders right at, below and above its threshold
    let (cases, reached) = decide::cases(k.thorough);
    k.section("decision-boundaries", cases.len() as u64, |i, l| {
        let case = &cases[i as usize];
        if i == 0 {
            l.count("threshold_distances_reached", reached);
        }
        for s in decide::SYMBOLS {
            for chroma in [case.chroma, false] {
                let d = case.with(s);
                let p = P { w: case.w, h: case.h, planes: 1, block: 4, enc: case.enc, q: case.q, chroma };
                l.describe(format_args!("{:?} {:?}", p, d));
                planes(&d, &p, l)?;
            }
        }
        Ok(())
    });
    // every combination of few settings
    gen::settings(&mut k, 10_000, &[], |case, prog, img, l| {
        let mut c = case.c;
        let (r, first) = decompress(&compress(img, &c, &prog.build())?, case.ds)?;
        ensure!(r == 0, "{:?}: decoding reports {}", c, r);
        let d: Vec<i16> = model_coefs(img, &c, prog).concat();
        let p = P { w: c.w as usize, h: c.h as usize, planes: c.planes(), block: c.block, enc: c.enc, q: c.q as i32, chroma: prog.any_chroma() };
        planes(&d, &p, l)?;
        c.block = if c.block == 30 { 2 } else { 30 };
        let (r, other) = decompress(&compress(img, &c, &prog.build())?, case.ds)?;
        ensure!(r == 0, "{:?}: decoding reports {}", c, r);
        ensure!(first == other, "{:?}: differs from block size {} at {:?}", c, case.c.block, first_diff(&first, &other));
        l.op(4);
        Ok(())
    });
    k.finish()
}

/// coefficient planes: sparse, dense, extreme
fn coefs(f: u64, w: usize, h: usize, planes: usize) -> Vec<i16> {
    (0..w * h * planes).map(|i| {
        let m = gen::mix(i as u64 ^ f << 40 ^ (w as u64) << 50);
        let (x, y) = (i % w, i / w % h);
        match f {
            0..=23 => {
                let c = Cfg::new(w as u32, h as u32, 1, 1);
                let _ = c;
                // structured image samples as coefficients, centered
                let v = match f % 4 {
                    0 => (m % 511) as i32 - 255,
                    1 => ((x * 37 + y * 91) % 64) as i32 - 32,
                    2 => if m % 29 == 0 { (m >> 20) as i32 % 300 } else { 0 },
                    _ => if m % 5 == 0 { ((m >> 20) % 9) as i32 - 4 } else { 0 },
                };
                (v * (1 + f as i32 / 4)) as i16
            }
            24 => m as i16,
            25 => if m % 7 == 0 { m.rotate_left(20) as i16 } else { 0 },
            26 => if m % 2 == 0 { i16::MAX } else { i16::MIN },
            27 => if (x + y) % 5 == 0 { -1 } else { 0 },
            28 => 0,
            29 => ((m % 5) as i16 - 2) << ((m >> 30) % 12),
            30 => i16::MIN,
            _ => if x * 2 < w { 0 } else { (m >> 3) as i16 >> (m % 14) },
        }
    }).collect()
}
