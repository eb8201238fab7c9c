//! C27: fields of the header that only describe never influence what is coded or decoded.
use gfwx::*;
use mc::codec::*;
use mc::fw::*;
use mc::{ensure, gen};

#[derive(Clone, Copy, Debug, PartialEq)]
struct About {
    version: u32,
    depth: u8,
    intent: u8,
    meta: u32,
}
const PLAIN: About = About { version: 1, depth: 8, intent: 0, meta: 0 };
const VERSIONS: [u32; 12] = [1, 0, 2, 3, 7, 10, 100, 255, 256, 65536, 0x7FFF_FFFF, u32::MAX];
const DEPTHS: [u8; 8] = [8, 1, 2, 3, 4, 5, 6, 7];
const INTENTS: [u8; 6] = [0, 7, 8, 10, 11, 12];
const METAS: [u32; 14] = [0, 4, 8, 12, 16, 28, 32, 64, 100, 1024, 65536, 1 << 24, 1 << 31, 0xFFFF_FFFC];

/// combination number `i` of all of them, each value of each kind soon
fn about(i: u64) -> About {
    let n = [VERSIONS.len(), DEPTHS.len(), INTENTS.len(), METAS.len()].map(|n| n as u64);
    // neighbours differ in all, all combinations are reached
    About {
        version: VERSIONS[(i % n[0]) as usize],
        depth: DEPTHS[((i + i / n[0]) % n[1]) as usize],
        intent: INTENTS[((i + i / (n[0] * n[1])) % n[2]) as usize],
        meta: METAS[((i + i / (n[0] * n[1] * n[2])) % n[3]) as usize],
    }
}
const ABOUTS: u64 = (VERSIONS.len() * DEPTHS.len() * INTENTS.len() * METAS.len()) as u64;

fn header(c: &Cfg, a: &About) -> Header {
    let mut h = Cfg { intent: a.intent, ..*c }.header();
    h.version = a.version;
    h.bit_depth = a.depth;
    h.metadata_size = a.meta;
    h
}
fn clip(v: &[u8]) -> &[u8] {
    &v[..v.len().min(24)]
}

struct Base {
    stream: Vec<u8>,
    cuts: Vec<usize>,
    /// for each resolution and cut (the last one is none): the answer and the pixels
    answers: Vec<Vec<(String, Vec<u8>)>>,
    planes: Vec<i16>,
    aux: Vec<u8>,
    decoded: Vec<(String, Vec<i16>)>,
    test: Vec<String>,
    overflow: String,
    capacity: usize,
}

fn answer(data: &[u8], h: &Header, ds: usize, test: bool, n: usize) -> (String, Vec<u8>) {
    let mut out = vec![0x5Au8; n];
    let r = decompress_simple(data, h, ds, test, &mut out);
    (format!("{:?}", r), out)
}

/// everything that is done with one header
fn all(img: &[u8], c: &Cfg, prog: &Prog, a: &About, cuts: Option<&Base>, l: &mut Local) -> Result<Base, String> {
    let h = header(c, a);
    let p = prog.build();
    let mut stream = vec![0u8; c.cap()];
    let n = compress_simple(img, &h, &p, &mut stream).map_err(|e| format!("compress: {:?}", e))?;
    ensure!(n <= stream.len(), "{} bytes in a buffer of {}", n, stream.len());
    stream.truncate(n);
    // a buffer that does not suffice
    let capacity = 32 + (n - 32) * 2 / 3;
    let overflow = format!("{:?}", compress_simple(img, &h, &p, &mut vec![0u8; capacity]));
    // its header says what was asked for
    let back = Header::decode(&mut &stream[..]).map_err(|e| format!("header: {}", e))?;
    ensure!(back == h, "header reads back as {:?}", back);
    let mut alone = vec![];
    h.encode(&mut alone).unwrap();
    ensure!(alone[..] == stream[..32], "header of the stream differs from the encoded one");
    let h = back;
    l.op(3);
    let cuts = match cuts {
        Some(b) => b.cuts.clone(),
        None => {
            let mut v: Vec<usize> = layout(&stream, c, prog).cuts(stream.len()).into_iter().filter(|&x| x >= 32).collect();
            while v.len() > 12 {
                let k = v.len();
                v = v.into_iter().enumerate().filter(|(i, _)| i % 2 == k % 2).map(|x| x.1).collect();
            }
            v.push(n);
            v
        }
    };
    let mut answers = vec![];
    let mut test = vec![];
    for ds in 0..=c.max_ds() {
        let (dw, dh) = c.down(ds);
        let want = dw * dh * c.planes();
        ensure!((h.get_downsampled_width(ds), h.get_downsampled_height(ds)) == (dw, dh) && h.get_downsampled_channel_size(ds) == dw * dh
            && h.get_downsampled_image_size(ds) == want && h.get_decompress_buffer_size(ds) == want, "ds {}: wrong sizes", ds);
        let mut v = vec![];
        for &cut in &cuts {
            let cut = cut.min(n);
            v.push(answer(&stream[32..cut], &h, ds, false, want));
            test.push(answer(&stream[32..cut], &h, ds, true, want).0);
            l.op(2);
        }
        answers.push(v);
    }
    // a file with as much metadata as is announced
    if a.meta <= 65536 {
        let mut file = stream[..32].to_vec();
        file.extend((0..a.meta).map(|i| gen::mix(i as u64) as u8));
        file.extend(&stream[32..]);
        let mut f = &file[..];
        let h = Header::decode(&mut f).map_err(|e| format!("header: {}", e))?;
        let f = &f[h.metadata_size as usize..];
        let r = answer(f, &h, 0, false, c.pixels());
        ensure!(r == *answers[0].last().unwrap(), "a file with metadata decodes to {} {:?}", r.0, clip(&r.1));
        l.op(1);
    }
    // part by part
    let mut planes = vec![0i16; c.pixels()];
    p.transform_and_to_planar(img, &h, &mut planes);
    let chroma = prog.chroma(c.planes());
    let mut aux = vec![0u8; c.cap()];
    let k = compress_aux_data(&mut planes.clone(), &h, &chroma, &mut aux).map_err(|e| format!("compress_aux_data: {:?}", e))?;
    aux.truncate(k);
    let mut decoded = vec![];
    for ds in 0..=c.max_ds() {
        let (dw, dh) = c.down(ds);
        let mut d = vec![0i16; dw * dh * c.planes()];
        let r = format!("{:?}", decompress_aux_data(&aux, &h, &chroma, ds, false, &mut d));
        decoded.push((r, d.clone()));
        l.op(1);
        if ds == 0 {
            let mut out = vec![0u8; d.len()];
            p.detransform_and_to_interleaved(&mut d, &h, c.plane(), &mut out);
            ensure!(out == answers[0].last().unwrap().1, "part by part: other pixels {:?}", clip(&out));
        }
    }
    l.op(3);
    Ok(Base { stream, cuts, answers, planes, aux, decoded, test, overflow, capacity })
}

fn compare(base: &Base, other: &Base, a: &About) -> Res {
    let (x, y) = (&base.stream[32..], &other.stream[32..]);
    ensure!(x == y, "{:?}: byte {:?} behind the header differs", a, first_diff(x, y));
    for (ds, (v, w)) in base.answers.iter().zip(&other.answers).enumerate() {
        for (k, (v, w)) in v.iter().zip(w).enumerate() {
            ensure!(v == w, "{:?}: ds {} first {} of {} bytes: {} {:?} instead of {} {:?}", a, ds, base.cuts[k], base.stream.len(), w.0, clip(&w.1), v.0, clip(&v.1));
        }
    }
    ensure!(base.test == other.test, "{:?}: probing {:?} differs", a, first_diff(&base.test, &other.test));
    ensure!(base.planes == other.planes, "{:?}: plane sample {:?} differs", a, first_diff(&base.planes, &other.planes));
    ensure!(base.aux == other.aux, "{:?}: byte {:?} of the coded planes differs", a, first_diff(&base.aux, &other.aux));
    ensure!(base.decoded == other.decoded, "{:?}: decoded planes differ at downsampling {:?}", a, first_diff(&base.decoded, &other.decoded));
    ensure!(base.overflow == other.overflow, "{:?}: a buffer of {} bytes: {} instead of {}", a, base.capacity, other.overflow, base.overflow);
    Ok(())
}

fn check(img: &[u8], c: &Cfg, prog: &Prog, abouts: impl Iterator<Item = About>, l: &mut Local) -> Res {
    let base = all(img, c, prog, &PLAIN, None, l)?;
    l.outcome(hash(&base.stream));
    for a in abouts {
        let other = all(img, c, prog, &a, Some(&base), l).map_err(|e| format!("{:?}: {}", a, e))?;
        compare(&base, &other, &a)?;
        l.state(1);
        l.trace(1);
    }
    l.sample(|| format!("{:?} {:?}: {} prefixes", c, prog.ints(), base.cuts.len()));
    Ok(())
}

fn main() {
    let mut k = Check::new("C27");
    // each combination of the descriptive fields, for each combination of filter and encoder
    let many = k.pick(1, 8);
    k.section("all-descriptions", ABOUTS * many, |i, l| {
        let mut c = Cfg::new(9, 7, 1, 3);
        let j = i / ABOUTS;
        c.filter = FILTERS[(i % 2) as usize];
        c.enc = ENCS[(i / 2 % 3) as usize];
        c.q = [1024, 600, 33][((i + j) / 3 % 3) as usize];
        c.chroma = [1, 8, 100][((i + j) / 5 % 3) as usize];
        c.layers = 1 + (i % 7 == 3) as u32;
        c.block = [7, 2][(i / 11 % 2) as usize];
        let lib = Prog::library(c.planes());
        let prog = &lib[((i + j * 5) % lib.len() as u64) as usize];
        let img = gen::image([4, 13, 2, 16][(i / 7 % 4) as usize], &c);
        let a = about(i % ABOUTS);
        l.describe(format_args!("{:?} {:?} {:?}", c, prog.ints(), a));
        check(&img, &c, if prog.in_range(&img, &c) { prog } else { &lib[0] }, std::iter::once(a), l)
    });
    // each value of each field, the others as always, at each shape
    let m = k.pick(12, 24);
    k.section("shapes", m * m * 3, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(r.n(m) as u32 + 1, r.n(m) as u32 + 1, 1, 1);
        c.enc = r.of(&ENCS);
        c.filter = (i % 2) as u8;
        c.q = [1024, 500, 40][(i % 3) as usize];
        let img = gen::image([4, 2, 13][(i / 3 % 3) as usize], &c);
        let it = VERSIONS.iter().map(|&version| About { version, ..PLAIN }).chain(DEPTHS.iter().map(|&depth| About { depth, ..PLAIN }))
            .chain(INTENTS.iter().map(|&intent| About { intent, ..PLAIN })).chain(METAS.iter().map(|&meta| About { meta, ..PLAIN }));
        check(&img, &c, &Prog::none(), it.filter(|&a| a != PLAIN), l)
    });
    // combinations of channels and layers with the intents that name channels
    k.section("structures", 6 * 4 * 14 * 6, |i, l| {
        let mut r = Radix(i);
        let mut c = Cfg::new(10, 6, 1, r.n(6) as u32 + 1);
        c.layers = r.n(4) as u32 + 1;
        let lib = Prog::library(c.planes());
        let p = r.n(14);
        if p >= lib.len() as u64 {
            return l.skip();
        }
        let intent = r.of(&INTENTS);
        c.enc = (i % 3) as u8;
        c.filter = (i / 3 % 2) as u8;
        c.q = [1024, 300][(i / 7 % 2) as usize];
        c.chroma = [1, 8][(i / 5 % 2) as usize];
        let img = gen::image([4, 13, 2][(i / 3 % 3) as usize], &c);
        let prog = if lib[p as usize].in_range(&img, &c) { &lib[p as usize] } else { &lib[0] };
        l.describe(format_args!("{:?} {:?} intent {}", c, prog.ints(), intent));
        let x = about(i.wrapping_mul(7919) % ABOUTS);
        check(&img, &c, prog, [About { intent, ..PLAIN }, About { intent, ..x }].into_iter(), l)
    });
    let n = k.pick(2u64, 6);
    gen::settings_of(&mut k, 3, 20_000, &[(gen::INTENT, 0)], |case, prog, img, l| {
        let i = hash(&[case.c.w as u8, case.c.h as u8, case.c.q as u8, case.c.block as u8, case.family as u8, case.prog as u8]);
        check(img, &case.c, prog, (0..n).map(|j| about((i / 3 + j * 1013) % ABOUTS)), l)
    });
    gen::program_streams(&mut k, |c, prog, img, l| {
        let i = hash(img);
        check(img, c, prog, (0..2).map(|j| about((i / 3 + j * 1013) % ABOUTS)), l)
    });
    // large images and runs, blocks, rows and columns beyond 16 bits
    k.section("huge", k.pick(4, gen::HUGE.len() as u64) * gen::HUGE_CASES / 9, |i, l| {
        let (c, f) = gen::huge(i * 9 + i % 9);
        l.describe(format_args!("{:?} family {}", c, f));
        check(&gen::image(f, &c), &c, &Prog::none(), std::iter::once(about((i * 2017 + 5) % ABOUTS)), l)
    });
    k.finish()
}
