//! C08: malformed input yields an error or an image, never a crash, hang or unbounded allocation.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};
use std::alloc::{GlobalAlloc, Layout as Lay, System};
use std::cell::Cell;

thread_local! {
    static USED: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
/// counts live bytes of the thread and refuses absurd requests
struct Counting;
const ABSURD: usize = 1 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Lay) -> *mut u8 {
        add(l.size());
        if l.size() > ABSURD { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Lay) -> *mut u8 {
        add(l.size());
        if l.size() > ABSURD { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Lay) {
        let _ = USED.try_with(|u| u.set(u.get().saturating_sub(l.size())));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Lay, n: usize) -> *mut u8 {
        let _ = USED.try_with(|u| u.set(u.get().saturating_sub(l.size())));
        add(n);
        if n > ABSURD { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
}
fn add(n: usize) {
    let _ = USED.try_with(|u| {
        u.set(u.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(u.get())));
    });
}
#[global_allocator]
static A: Counting = Counting;

const CANARY: usize = 32;

/// Decodes `data` (everything behind the header) and watches what must hold for any bytes.
fn attempt(h: &Header, ds: usize, data: &[u8], out: &mut Vec<u8>, l: &mut Local) -> Res {
    let size = h.get_decompress_buffer_size(ds);
    out.clear();
    out.resize(size + 2 * CANARY, 0xE7);
    for test in [true, false] {
        USED.with(|u| u.set(0));
        PEAK.with(|u| u.set(0));
        let r = guarded(|| decompress_simple(data, h, ds, test, &mut out[CANARY..CANARY + size]))?;
        let peak = PEAK.with(|u| u.get());
        l.op(1);
        ensure!(out[..CANARY].iter().chain(&out[CANARY + size..]).all(|&b| b == 0xE7), "memory outside of the output changed");
        let limit = (1 << 16) + 256 * (size + data.len());
        ensure!(peak <= limit, "allocated {} bytes for {} bytes of input and {} bytes of image", peak, data.len(), size);
        l.outcome(match &r {
            Ok(0) => hash(&out[CANARY..CANARY + size]),
            Ok(n) => 1000 + *n as u64,
            Err(DecompressError::Underflow) => 1,
            Err(DecompressError::Malformed) => 2,
            Err(DecompressError::IOErr(_)) => 3,
            Err(_) => 4,
        });
        l.count(match &r { Ok(0) => "complete", Ok(_) => "incomplete", Err(_) => "rejected" }, 1);
    }
    l.state(1);
    Ok(())
}

/// base streams: settings, program, image
fn base(i: u64) -> (Cfg, Prog, Vec<u8>) {
    let mut r = Radix(i);
    let enc = r.of(&ENCS);
    let shape = r.of(&[(5u32, 6u32, 1u32, 1u32), (4, 3, 1, 3), (9, 7, 1, 1), (17, 2, 1, 2), (1, 1, 2, 2), (12, 11, 1, 1), (3, 3, 1, 4)]);
    let mut c = Cfg { enc, ..Cfg::new(shape.0, shape.1, shape.2, shape.3) };
    c.filter = (i % 2) as u8;
    c.block = [2, 7][(i / 2 % 2) as usize];
    c.q = [1024, 80, 3][(i / 5 % 3) as usize];
    c.chroma = 3;
    let lib = Prog::library(c.planes());
    let prog = lib[(i as usize / 2) % lib.len()].clone();
    let img = gen::image([4, 6, 13, 2, 15][(i % 5) as usize], &c);
    (c, prog, img)
}
const BASES: u64 = 3 * 7;

fn stream(i: u64) -> Result<(Cfg, Prog, Vec<u8>), String> {
    let (c, prog, img) = base(i);
    // from the reference, so that what is mutated does not depend on the code under test
    let (w, n) = ref_stream(&img, &c, &prog, false);
    Ok((c, prog, as_bytes(&w, n).to_vec()))
}

fn main() {
    let mut k = Check::new("C08");

    // every value of every byte, and every truncation, of base streams
    k.section("bytes", BASES, |i, l| {
        let (c, prog, s) = stream(i)?;
        l.describe(format_args!("{:?} {:?} {} bytes", c, prog.ints(), s.len()));
        let h = c.header();
        let mut out = vec![];
        let mut d = s[32..].to_vec();
        for ds in 0..=c.max_ds().min(2) {
            for p in 0..d.len() {
                let old = d[p];
                for v in 0..=255u8 {
                    if v == old || (d.len() > 400 && v.count_ones() > 1 && v < 254 && (v ^ old).count_ones() > 1) {
                        continue;
                    }
                    d[p] = v;
                    attempt(&h, ds, &d, &mut out, l).map_err(|e| format!("byte {} set to {} ds {}: {}", p, v, ds, e))?;
                }
                d[p] = old;
            }
        }
        l.sample(|| format!("{:?} {:?}: every value of each of {} bytes", c, prog.ints(), d.len()));
        Ok(())
    });
    // damaged streams of all settings
    gen::settings_of(&mut k, 3, 600, &[], |case, prog, img, l| {
        let (w, n) = ref_stream(img, &case.c, prog, false);
        let s = as_bytes(&w, n);
        let h = case.c.header();
        let mut out = vec![];
        let mut d = s[32..].to_vec();
        let every = 1 + d.len() / 24;
        for p in (0..d.len()).filter(|p| (p + case.family as usize) % every == 0) {
            let old = d[p];
            for v in [old ^ 1 << (p % 8), !old, 0xff, 0] {
                d[p] = v;
                attempt(&h, case.ds, &d, &mut out, l).map_err(|e| format!("byte {} set to {}: {}", p, v, e))?;
            }
            d[p] = old;
            attempt(&h, case.ds, &d[..p], &mut out, l).map_err(|e| format!("cut at {}: {}", p, e))?;
            // bytes lost or repeated
            let lost: Vec<u8> = d[..p].iter().chain(&d[(p + 4).min(d.len())..]).copied().collect();
            attempt(&h, case.ds, &lost, &mut out, l).map_err(|e| format!("word at {} lost: {}", p, e))?;
            let twice: Vec<u8> = d[..p].iter().chain(&d[p.saturating_sub(4)..]).copied().collect();
            attempt(&h, case.ds, &twice, &mut out, l).map_err(|e| format!("word before {} repeated: {}", p, e))?;
        }
        Ok(())
    });
    // bit flip + truncation, two changed bytes
    let cut = k.pick(1, 2);
    k.section("bytes-and-truncation", BASES, |i, l| {
        let (c, prog, s) = stream(i)?;
        l.describe(format_args!("{:?} {:?} {} bytes", c, prog.ints(), s.len()));
        let h = c.header();
        let mut out = vec![];
        let mut d = s[32..].to_vec();
        let n = d.len().min(120 * cut);
        for p in 0..n {
            let old = d[p];
            for v in [old ^ 1, old ^ 0x80, old ^ 0x10, 0xff, 0] {
                d[p] = v;
                for e in p + 1..=d.len() {
                    if e % 4 <= cut {
                        attempt(&h, 0, &d[..e], &mut out, l).map_err(|x| format!("byte {} set to {}, cut at {}: {}", p, v, e, x))?;
                    }
                }
                for p2 in p + 1..n {
                    let old2 = d[p2];
                    for v2 in [!old2, 0, 0x7f] {
                        d[p2] = v2;
                        attempt(&h, 0, &d, &mut out, l).map_err(|x| format!("byte {} set to {}, {} to {}: {}", p, v, p2, v2, x))?;
                    }
                    d[p2] = old2;
                }
            }
            d[p] = old;
        }
        Ok(())
    });
    // size tables: every entry and every pair of entries from classes of values
    k.section("size-tables", BASES, |i, l| {
        let (c, prog, s) = stream(i)?;
        let lay = layout(&s, &c, &prog);
        l.describe(format_args!("{:?} {:?} {:?}", c, prog.ints(), lay));
        let h = c.header();
        let mut out = vec![];
        let mut d = s[32..].to_vec();
        let mut entries = vec![];
        for v in &lay.levels {
            entries.extend((v.1..v.2).step_by(4));
        }
        let words = (d.len() / 4) as u32;
        let get = |d: &[u8], p: usize| u32::from_le_bytes(d[p..p + 4].try_into().unwrap());
        let classes = |cur: u32| [0, 1, cur.wrapping_sub(1), cur + 1, cur * 2, words, words + 1, words - 1, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x7fff_ffff,
            0x8000_0000, 0xc000_0000, 0xffff_ffff, 0xffff_fffe];
        for (n, &p) in entries.iter().enumerate() {
            let old = get(&d, p);
            for v in classes(old) {
                d[p..p + 4].copy_from_slice(&v.to_le_bytes());
                for ds in 0..=c.max_ds() {
                    attempt(&h, ds, &d, &mut out, l).map_err(|x| format!("size at {} set to {} ds {}: {}", p, v, ds, x))?;
                }
                for e in (0..d.len()).step_by(3) {
                    attempt(&h, 0, &d[..e], &mut out, l).map_err(|x| format!("size at {} set to {}, cut at {}: {}", p, v, e, x))?;
                }
                for &p2 in &entries[n + 1..entries.len().min(n + 13)] {
                    let old2 = get(&d, p2);
                    for v2 in classes(old2) {
                        d[p2..p2 + 4].copy_from_slice(&v2.to_le_bytes());
                        attempt(&h, 0, &d, &mut out, l).map_err(|x| format!("size at {} set to {}, at {} to {}: {}", p, v, p2, v2, x))?;
                    }
                    d[p2..p2 + 4].copy_from_slice(&old2.to_le_bytes());
                }
            }
            d[p..p + 4].copy_from_slice(&old.to_le_bytes());
        }
        Ok(())
    });
    // all programs by their first bits
    let bits = k.pick(18, 23);
    k.section("program-bits", 1 << (bits - 6), |i, l| {
        let mut out = vec![];
        for j in 0..64u64 {
            let top = ((i << 6 | j) as u32) << (32 - bits);
            let shape = [(1u32, 1u32, 1u32, 1u32), (2, 1, 1, 3)][(j % 2) as usize];
            let c = Cfg { q: [1024, 5][(i % 2) as usize], ..Cfg::new(shape.0, shape.1, shape.2, shape.3) };
            let h = c.header();
            for low in [0u32, 0xffff_ffff, 0x9249_2492, 0x4444_4444] {
                let word = top | (low & ((1 << (32 - bits)) - 1));
                l.describe(format_args!("{:?} program word {:08x}", c, word));
                let mut d = word.to_le_bytes().to_vec();
                // more program or payload: sizes, one word per plane
                d.extend(std::iter::repeat(1u32.to_le_bytes()).take(c.planes()).flatten());
                d.extend(std::iter::repeat(0x8fff_0f0fu32.to_le_bytes()).take(c.planes() + 1).flatten());
                attempt(&h, 0, &d, &mut out, l).map_err(|e| format!("program word {:08x}: {}", word, e))?;
            }
        }
        Ok(())
    });
    // programs of every number sequence, including those the builder can not make
    let len = k.pick(6, 7);
    const NUMS: [i32; 9] = [-1, 0, 1, 2, 3, -2, 4, 40000, i32::MAX];
    k.section("program-numbers", pow(9, len - 1), |i, l| {
        let mut out = vec![];
        for last in NUMS {
            let mut r = Radix(i);
            let mut nums: Vec<i32> = (1..len).map(|_| r.of(&NUMS)).collect();
            nums.push(last);
            l.describe(format_args!("program numbers {:?}", nums));
            for (tail, planes) in [(&[][..], 3), (&[-1, 1, 0, -1][..], 2), (&[-1, -1][..], 4)] {
                let mut d = vec![];
                {
                    let mut w = bits::BitsIOWriter::new(&mut d);
                    use bits::BitsWriter;
                    for &v in nums.iter().chain(tail) {
                        encode::signed_code(v, &mut w, 2).unwrap();
                    }
                    w.flush_write_word().unwrap();
                }
                let c = Cfg::new(1, 2, 1, planes);
                d.extend(std::iter::repeat(1u32.to_le_bytes()).take(c.planes()).flatten());
                d.extend(std::iter::repeat(0x7654_3210u32.to_le_bytes()).take(c.planes()).flatten());
                attempt(&c.header(), 0, &d, &mut out, l)?;
            }
        }
        Ok(())
    });
    // all short payloads
    let bits = k.pick(14, 20);
    k.section("payload-bits", 1 << bits, |i, l| {
        let top = (i as u32) << (32 - bits);
        let mut out = vec![];
        for enc in ENCS {
            for (w, h) in [(2, 2), (4, 3)] {
                for low in [0u32, 0xffff_ffff, 0x5555_5555, 0x0010_0100] {
                    for q in [1024, 1] {
                        let c = Cfg { enc, q, ..Cfg::new(w, h, 1, 1) };
                        let word = top | (low & ((1 << (32 - bits)) - 1));
                        l.describe(format_args!("{:?} payload word {:08x}", c, word));
                        let mut d = 0xA000_0000u32.to_le_bytes().to_vec(); // signed_code(-1, 2): end of program
                        for _ in 0..c.levels() {
                            d.extend(2u32.to_le_bytes());
                            d.extend(word.to_le_bytes());
                            d.extend(low.rotate_left(7).to_le_bytes());
                        }
                        attempt(&c.header(), 0, &d, &mut out, l)?;
                    }
                }
            }
        }
        Ok(())
    });
    // all sequences of words from a small alphabet as block contents
    let wl = k.pick(4, 5);
    const WORDS: [u32; 8] = [0, 0xffff_ffff, 1, 0x8000_0000, 0x5555_5555, 0x0001_0000, 0x0000_ffff, 0x2492_4924];
    k.section("payload-words", pow(8, wl) * 3, |i, l| {
        let mut r = Radix(i);
        let enc = r.of(&ENCS);
        let words: Vec<u32> = (0..wl).map(|_| r.of(&WORDS)).collect();
        let mut out = vec![];
        for (w, h) in [(2, 2), (7, 6), (16, 16), (1, 9)] {
            for (q, chroma) in [(1024, false), (40, true), (1, false)] {
                for block in [2, 7] {
                    let c = Cfg { enc, q, block, chroma: 5, ..Cfg::new(w, h, 1, 1) };
                    l.describe(format_args!("{:?} words {:x?}", c, words));
                    let mut d = vec![];
                    Prog(if chroma { vec![st(0, &[], 1, true)] } else { vec![] }).build().encode(1, &mut d).map_err(|e| e.to_string())?;
                    let mut step = c.top_step();
                    while step > 0 {
                        let n = c.blocks(step);
                        for _ in 0..n {
                            d.extend((wl as u32).to_le_bytes());
                        }
                        for b in 0..n {
                            for x in 0..words.len() {
                                d.extend(words[(x + b) % words.len()].to_le_bytes());
                            }
                        }
                        step /= 2;
                    }
                    attempt(&c.header(), 0, &d, &mut out, l)?;
                    if c.max_ds() > 0 {
                        attempt(&c.header(), 1, &d, &mut out, l)?;
                    }
                }
            }
        }
        Ok(())
    });
    // parts of two streams
    k.section("splices", BASES * BASES, |i, l| {
        let mut r = Radix(i);
        let (c, p, a) = stream(r.n(BASES))?;
        let (_, p2, b) = stream(r.n(BASES))?;
        l.describe(format_args!("{:?} {:?} spliced with {:?}", c, p.ints(), p2.ints()));
        let h = c.header();
        let (a, b) = (&a[32..], &b[32..]);
        let mut out = vec![];
        let n = a.len().min(b.len()).min(200);
        for cut in (0..=n).step_by(2) {
            let d = [&a[..cut], &b[cut..]].concat();
            attempt(&h, cut % (c.max_ds() + 1), &d, &mut out, l).map_err(|e| format!("cut {}: {}", cut, e))?;
            let d = [&a[..cut], &b[b.len() - n.min(b.len())..]].concat();
            attempt(&h, 0, &d, &mut out, l).map_err(|e| format!("cut {} tail: {}", cut, e))?;
        }
        Ok(())
    });
    // streams decoded with the header of another image
    k.section("other-header", BASES * 6 * 3 * 2 * 3 * 6, |i, l| {
        let mut r = Radix(i);
        let (_, p, s) = stream(r.n(BASES))?;
        let shape = r.of(&[(1u32, 1u32), (2, 7), (16, 16), (40, 1), (33, 9), (6, 6)]);
        let enc = r.of(&ENCS);
        let filter = r.of(&FILTERS);
        let q = r.of(&[1024, 90, 1]);
        let (layers, channels) = r.of(&[(1, 1), (1, 3), (2, 2), (5, 1), (1, 7), (3, 3)]);
        let c = Cfg { enc, filter, q, block: [2, 4, 30][(i % 3) as usize], chroma: 7, ..Cfg::new(shape.0, shape.1, layers, channels) };
        l.describe(format_args!("stream of {:?} read as {:?}", p.ints(), c));
        let mut out = vec![];
        for ds in 0..=c.max_ds() {
            attempt(&c.header(), ds, &s[32..], &mut out, l)?;
        }
        Ok(())
    });
    // long monotonous input: recursion and run lengths
    k.section("long", 3 * 6 * 4, |i, l| {
        let mut r = Radix(i);
        let enc = r.of(&ENCS);
        let v = r.of(&[0u8, 0xff, 0x55, 0x80, 0x11, 0x01]);
        let kind = r.n(4);
        let c = Cfg { enc, q: [1024, 30][(i % 2) as usize], ..Cfg::new(130, 70, 1, 1) };
        l.describe(format_args!("{:?} byte {:02x} kind {}", c, v, kind));
        let len = 1usize << 22;
        let mut d = vec![];
        match kind {
            0 => d.resize(len, v), // program
            1 => {
                Prog(vec![st(0, &[], 1, i % 2 == 0)]).build().encode(1, &mut d).map_err(|e| e.to_string())?;
                // first level has all of it
                d.extend((len as u32 / 4).to_le_bytes());
                d.resize(len, v);
            }
            2 => {
                Prog::none().build().encode(1, &mut d).map_err(|e| e.to_string())?;
                let mut step = c.top_step();
                while step > 0 {
                    for _ in 0..c.blocks(step) {
                        d.extend(0x4000u32.to_le_bytes());
                    }
                    d.resize(d.len() + 0x10000 * c.blocks(step), v);
                    step /= 2;
                }
            }
            _ => {
                // large factors and denominators
                let f = [1, -1, 32767, -32768, 65535, i32::MIN + 1][i as usize % 6];
                let p = Prog(vec![st(0, &[(0, f), (0, f)], 1 + (i as i32 % 3) * 16383, true)]);
                p.build().encode(1, &mut d).map_err(|e| e.to_string())?;
                d.resize(1 << 16, v);
            }
        }
        let mut out = vec![];
        attempt(&c.header(), 0, &d, &mut out, l)
    });
    // headers
    k.section("header-bytes", 32 * 256 + 33, |i, l| {
        let good = {
            let mut v = vec![];
            Cfg { block: 4, q: 77, chroma: 8, enc: 1, filter: 1, intent: 7, ..Cfg::new(3, 5, 2, 3) }.header().encode(&mut v).map_err(|e| e.to_string())?;
            v
        };
        let mut b = good.clone();
        if i >= 32 * 256 {
            b.truncate((i - 32 * 256) as usize);
        } else {
            b[(i / 256) as usize] = (i % 256) as u8;
        }
        let check = |b: &[u8], l: &mut Local| -> Res {
            l.describe(format_args!("header {}", hex(b)));
            let r = guarded(|| Header::decode(&mut &b[..]))?;
            l.op(1);
            l.state(1);
            l.count(if r.is_ok() { "header_accepted" } else { "header_rejected" }, 1);
            if let Ok(h) = r {
                // what it says about sizes never panics, and small images can be decoded
                let size = guarded(|| h.get_image_size())?;
                if size <= 1 << 14 && h.layers as u32 * h.channels as u32 <= 64 {
                    let d: Vec<u8> = [0xA000_0000u32, 1, 0x0123_4567, 1, 0x89ab_cdef].iter().flat_map(|x| x.to_le_bytes()).collect();
                    attempt(&h, 0, &d, &mut vec![], l)?;
                }
            }
            Ok(())
        };
        check(&b, l)?;
        // a second changed byte
        if i < 32 * 256 && [0, 1, 2, 3, 0x40, 0x7f, 0x80, 0xfe, 0xff].contains(&b[(i / 256) as usize]) {
            for p in 0..32 {
                let old = b[p];
                for v in [0, 1, 2, 3, 0x40, 0x7f, 0x80, 0xfe, 0xff] {
                    b[p] = v;
                    check(&b, l)?;
                }
                b[p] = old;
            }
        }
        Ok(())
    });
    k.finish()
}
