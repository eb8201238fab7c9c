//! Thin drivers around the public API of gfwx.
use gfwx::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub w: u32,
    pub h: u32,
    pub layers: u32,
    pub channels: u32,
    pub q: u32,
    pub chroma: u32,
    pub block: u32,
    pub filter: u8,
    pub enc: u8,
    pub intent: u8,
}

pub const FILTERS: [u8; 2] = [0, 1];
pub const ENCS: [u8; 3] = [0, 1, 2];

impl Cfg {
    pub fn new(w: u32, h: u32, layers: u32, channels: u32) -> Cfg {
        Cfg { w, h, layers, channels, q: 1024, chroma: 1, block: 7, filter: 0, enc: 0, intent: 0 }
    }
    pub fn pixels(&self) -> usize {
        self.w as usize * self.h as usize * self.planes()
    }
    pub fn plane(&self) -> usize {
        self.w as usize * self.h as usize
    }
    pub fn planes(&self) -> usize {
        self.layers as usize * self.channels as usize
    }
    pub fn header(&self) -> Header {
        let b = HeaderBuilder {
            width: self.w,
            height: self.h,
            layers: self.layers as u16,
            channels: self.channels as u16,
            quality: self.q as u16,
            chroma_scale: self.chroma as u8,
            block_size: self.block as u8,
            filter: if self.filter == 0 { Filter::Linear } else { Filter::Cubic },
            encoder: match self.enc {
                0 => Encoder::Turbo,
                1 => Encoder::Fast,
                _ => Encoder::Contextual,
            },
            intent: match self.intent {
                7 => Intent::RGB,
                8 => Intent::RGBA,
                10 => Intent::BGR,
                11 => Intent::BGRA,
                12 => Intent::YUV444,
                _ => Intent::Generic,
            },
            metadata_size: 0,
        };
        match b.build() {
            Ok(h) => h,
            Err(e) => panic!("header rejected: {}", e),
        }
    }
    /// largest power of two step of the wavelet pyramid
    pub fn top_step(&self) -> usize {
        let mut s = 1;
        while s * 2 < self.w as usize || s * 2 < self.h as usize {
            s *= 2;
        }
        s
    }
    /// largest useful downsampling exponent
    pub fn max_ds(&self) -> usize {
        self.top_step().trailing_zeros() as usize
    }
    pub fn levels(&self) -> usize {
        self.max_ds() + 1
    }
    pub fn blocks(&self, step: usize) -> usize {
        let bs = step << self.block;
        ((self.w as usize + bs - 1) / bs) * ((self.h as usize + bs - 1) / bs) * self.planes()
    }
    pub fn boost(&self) -> i32 {
        if self.q == 1024 { 1 } else { 8 }
    }
    pub fn chroma_q(&self) -> i32 {
        1.max((self.q as i32 + self.chroma as i32 / 2) / self.chroma as i32)
    }
    pub fn down(&self, ds: usize) -> (usize, usize) {
        let f = (1usize << ds) - 1;
        ((self.w as usize + f) >> ds, (self.h as usize + f) >> ds)
    }
    /// a buffer size that is enough for any content
    pub fn cap(&self) -> usize {
        let mut n = 4096 + self.pixels() * 12;
        let mut step = self.top_step();
        loop {
            // every block gets an equal share, so each share must hold the largest block
            let cols = (self.w as usize).min(step << self.block).div_ceil(step);
            let rows = (self.h as usize).min(step << self.block).div_ceil(step);
            n = n.max(self.blocks(step) * (cols * rows * 6 + 24) + self.pixels() * 8 + 4096);
            if step == 1 {
                return n;
            }
            step /= 2;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub dest: usize,
    pub factors: Vec<(usize, i32)>,
    pub denom: i32,
    pub chroma: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Prog(pub Vec<Step>);

pub fn st(dest: usize, factors: &[(usize, i32)], denom: i32, chroma: bool) -> Step {
    Step { dest, factors: factors.to_vec(), denom, chroma }
}

impl Prog {
    pub fn none() -> Prog {
        Prog(vec![])
    }
    pub fn yuv() -> Prog {
        Prog(vec![st(0, &[(1, -1)], 1, true), st(2, &[(1, -1)], 1, true), st(1, &[(0, 1), (2, 1)], 4, false)])
    }
    pub fn a710_bgr() -> Prog {
        Prog(vec![st(2, &[(1, -1)], 1, true), st(0, &[(1, -2), (2, -1)], 2, true), st(1, &[(0, 2), (2, 3)], 8, false)])
    }
    pub fn a710_rgb() -> Prog {
        Prog(vec![st(0, &[(1, -1)], 1, true), st(2, &[(1, -2), (0, -1)], 2, true), st(1, &[(2, 2), (0, 3)], 8, false)])
    }
    pub fn yuv444() -> Prog {
        Prog(vec![st(1, &[], 1, true), st(2, &[], 1, true)])
    }
    pub fn build(&self) -> ColorTransformProgram {
        let mut p = ColorTransformProgram::new();
        for s in &self.0 {
            let mut b = ChannelTransformBuilder::with_dest_channel(s.dest);
            for &(c, f) in &s.factors {
                b.add_channel_factor(c, f as isize);
            }
            b.set_denominator(s.denom as isize);
            if s.chroma {
                b.set_chroma();
            }
            p.add_channel_transform(b.build());
        }
        p
    }
    pub fn from_program(p: &ColorTransformProgram) -> Prog {
        Prog(p.iter().map(|t| Step {
            dest: t.dest_channel,
            factors: t.channel_factors.iter().map(|f| (f.src_channel, f.factor as i32)).collect(),
            denom: t.denominator as i32,
            chroma: t.is_chroma,
        }).collect())
    }
    pub fn ints(&self) -> Vec<i32> {
        let mut v = vec![];
        for s in &self.0 {
            v.push(s.dest as i32);
            for &(c, f) in &s.factors {
                v.push(c as i32);
                v.push(f);
            }
            v.extend([-1, s.denom, s.chroma as i32]);
        }
        v.push(-1);
        v
    }
    /// planar transformed samples, computed without any width limit
    /// and the largest magnitude of any partial sum
    pub fn model_transform(&self, img: &[u8], c: &Cfg) -> (Vec<Vec<i64>>, i64) {
        let mut worst = 0;
        let (ch, plane) = (c.channels as usize, c.plane());
        let mut v: Vec<Vec<i64>> = (0..c.planes()).map(|p| {
            let (layer, chan) = (p / ch, p % ch);
            (0..plane).map(|i| i64::from(img[layer * plane * ch + i * ch + chan]) * i64::from(c.boost())).collect()
        }).collect();
        for s in &self.0 {
            for i in 0..plane {
                let mut sum = 0;
                for &(p, f) in &s.factors {
                    sum += v[p][i] * i64::from(f);
                    worst = worst.max(sum.abs());
                }
                v[s.dest][i] += sum / i64::from(s.denom);
            }
        }
        (v, worst)
    }
    /// all transformed samples are at most four times the boosted 8 bit range, and sums before
    /// division at most eight times
    pub fn in_range(&self, img: &[u8], c: &Cfg) -> bool {
        let lim = i64::from(c.boost()) * 255 * 4;
        let (v, worst) = self.model_transform(img, c);
        worst <= 2 * lim && v.iter().flatten().all(|v| v.abs() <= lim)
    }
    pub fn chroma(&self, planes: usize) -> Vec<bool> {
        let mut v = vec![false; planes];
        for s in &self.0 {
            v[s.dest] = s.chroma;
        }
        v
    }
    pub fn any_chroma(&self) -> bool {
        self.0.iter().any(|s| s.chroma)
    }
    /// the shipped programs: constructor, and the program the format documents for it
    pub fn shipped() -> Vec<(&'static str, ColorTransformProgram, Prog)> {
        vec![
            ("rgb_to_yuv", ColorTransformProgram::rgb_to_yuv(), Prog::yuv()),
            ("bgr_to_a710", ColorTransformProgram::bgr_to_a710(), Prog::a710_bgr()),
            ("rgb_to_a710", ColorTransformProgram::rgb_to_a710(), Prog::a710_rgb()),
            ("yuv444_to_yuv444", ColorTransformProgram::yuv444_to_yuv444(), Prog::yuv444()),
            ("new", ColorTransformProgram::new(), Prog::none()),
        ]
    }
    pub fn planes_needed(&self) -> usize {
        self.0.iter().map(|s| 1 + s.factors.iter().map(|f| f.0).chain([s.dest]).max().unwrap()).max().unwrap_or(0)
    }
    /// programs for an image with `planes` planes, simplest first: shipped ones and custom ones with
    /// other denominators, chroma patterns, chains, and planes of other layers
    pub fn library(planes: usize) -> Vec<Prog> {
        let mut v = vec![
            Prog::none(),
            Prog(vec![st(0, &[], 1, true)]),
            Prog(vec![st(0, &[], 1, false)]),
            Prog(vec![st(0, &[(1, -1)], 1, true)]),
            Prog(vec![st(1, &[(0, 1)], 3, true)]),
            Prog(vec![st(0, &[(1, 5)], 7, false), st(1, &[(0, -3)], 5, true)]),
            Prog(vec![st(0, &[(1, 1), (1, -3)], 2, false)]),
            Prog::yuv(),
            Prog::a710_bgr(),
            Prog::a710_rgb(),
            Prog::yuv444(),
            Prog(vec![st(2, &[(0, -1), (1, -1)], 2, true), st(0, &[(2, 1)], 16, true), st(1, &[(2, 3), (0, 1)], 3, false)]),
            Prog(vec![st(3, &[(0, -1)], 1, true), st(1, &[(3, 1)], 2, false)]),
            Prog(vec![st(3, &[(2, 1), (1, 1), (0, 2)], 4, true), st(4, &[(3, -1)], 1, true), st(5, &[(3, 2), (4, -2), (0, 1)], 9, true)]),
        ];
        v.retain(|p| p.planes_needed() <= planes);
        v
    }
}

pub struct Stream {
    /// header + program + payload
    pub bytes: Vec<u8>,
}

pub fn compress(img: &[u8], c: &Cfg, prog: &ColorTransformProgram) -> Result<Vec<u8>, String> {
    compress_cap(img, c, prog, c.cap())
}
pub fn compress_cap(img: &[u8], c: &Cfg, prog: &ColorTransformProgram, cap: usize) -> Result<Vec<u8>, String> {
    let h = c.header();
    let mut buf = vec![0u8; cap];
    match compress_simple(img, &h, prog, &mut buf) {
        Ok(n) => {
            if n > cap {
                return Err(format!("compress returned size {} for a buffer of {}", n, cap));
            }
            buf.truncate(n);
            Ok(buf)
        }
        Err(e) => Err(format!("compress failed: {:?}", e)),
    }
}

/// Decodes the header from the stream and then the image.
pub fn decompress(stream: &[u8], ds: usize) -> Result<(usize, Vec<u8>), String> {
    let mut s = stream;
    let h = Header::decode(&mut s).map_err(|e| format!("header decode failed: {:?}", e))?;
    let mut out = vec![0xA5u8; h.get_decompress_buffer_size(ds)];
    let r = decompress_simple(s, &h, ds, false, &mut out).map_err(|e| format!("decompress failed: {:?}", e))?;
    Ok((r, out))
}

/// reference stream for the same inputs, as words
pub fn ref_stream(img: &[u8], c: &Cfg, prog: &Prog, exact: bool) -> (Vec<u32>, usize) {
    let mut out = vec![0u32; c.cap() / 4 + 16];
    let ints = prog.ints();
    let n = crate::oracle::compress(img, c, Some(&ints), exact, &mut out);
    (out, n)
}
pub fn as_bytes(w: &[u32], n: usize) -> &[u8] {
    assert!(n <= w.len() * 4);
    unsafe { std::slice::from_raw_parts(w.as_ptr() as *const u8, n) }
}
pub fn to_words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| {
        let mut a = [0; 4];
        a[..c.len()].copy_from_slice(c);
        u32::from_le_bytes(a)
    }).collect()
}

pub fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())));
    }
    if a == b { None } else { a.iter().zip(b).position(|(x, y)| x != y) }
}

/// Where the parts of a valid stream lie. All positions count from the end of the header.
#[derive(Debug, Clone)]
pub struct Layout {
    /// end of the color program
    pub program: usize,
    /// per level, coarsest first: (step, start, end of the size table, end)
    pub levels: Vec<(usize, usize, usize, usize)>,
    /// per level: bytes of each block
    pub blocks: Vec<Vec<usize>>,
}
impl Layout {
    /// positions at and near every boundary: levels, tables, and the first, middle and last blocks of each level
    pub fn cuts(&self, len: usize) -> Vec<usize> {
        let mut at = vec![0, self.program];
        for (v, b) in self.levels.iter().zip(&self.blocks) {
            at.extend([v.1, (v.1 + v.2) / 2, v.2, v.3]);
            let mut p = v.2;
            for (i, size) in b.iter().enumerate() {
                if i < 3 || i + 3 >= b.len() || i == b.len() / 2 || i % 512 == 0 {
                    at.extend([p, p + size / 2]);
                }
                p += size;
            }
        }
        let mut v: Vec<usize> = at.iter().flat_map(|&p| [p.saturating_sub(4), p.saturating_sub(1), p, p + 1, p + 4]).filter(|&p| p <= len).collect();
        v.sort();
        v.dedup();
        v
    }
}
/// larger images for the checks that treat every one at many positions: through the parallel code paths, and with many blocks
pub const MANY: [(u32, u32, u32, u32); 9] = [(64, 64, 1, 1), (96, 96, 1, 1), (130, 97, 1, 3), (64, 300, 2, 1), (1, 3000, 1, 2), (300, 260, 1, 1), (2050, 3, 1, 1), (700, 300, 1, 1), (520, 510, 1, 3)];
/// Splits a stream along the format (32 byte header, program, levels with size tables).
pub fn layout(stream: &[u8], c: &Cfg, prog: &Prog) -> Layout {
    let mut w = vec![0u32; 64 + prog.ints().len() * 8];
    // program size from the reference: an empty image has the same program
    let tiny = Cfg { w: 1, h: 1, ..*c };
    let n = crate::oracle::compress(&vec![0; tiny.pixels()], &tiny, Some(&prog.ints()), false, {
        w.resize(w.len() + tiny.planes() * 64 + 1024, 0);
        &mut w
    });
    // one level: table, one word per channel holding the DC
    let mut program = 0;
    let words = n / 4;
    for p in 8..words {
        let sizes = &w[p..(p + tiny.planes()).min(words)];
        let sum: u64 = sizes.iter().map(|&x| u64::from(x)).sum();
        if sizes.len() == tiny.planes() && sizes.iter().all(|&x| x == 1) && (p + tiny.planes()) as u64 + sum == words as u64 {
            program = (p - 8) * 4;
            break;
        }
    }
    let data = &stream[32..];
    let mut l = Layout { program, levels: vec![], blocks: vec![] };
    let mut pos = program;
    let mut step = c.top_step();
    loop {
        let n = c.blocks(step);
        let sizes: Vec<usize> = (0..n).map(|i| u32::from_le_bytes(data[pos + i * 4..pos + i * 4 + 4].try_into().unwrap()) as usize * 4).collect();
        let end = pos + n * 4 + sizes.iter().sum::<usize>();
        l.levels.push((step, pos, pos + n * 4, end));
        l.blocks.push(sizes);
        pos = end;
        if step == 1 {
            break;
        }
        step /= 2;
    }
    assert_eq!(pos, data.len(), "stream does not parse: {:?} {:?}", c, l);
    l
}

/// What a stream of `img` carries: the quantised coefficients of every plane, by the reference
/// filters and quantiser.
pub fn model_coefs(img: &[u8], c: &Cfg, prog: &Prog) -> Vec<Vec<i16>> {
    let (v, _) = prog.model_transform(img, c);
    let chroma = prog.chroma(c.planes());
    let (w, h) = (c.w as usize, c.h as usize);
    v.iter().zip(chroma).map(|(p, chroma)| {
        let mut d: Vec<i16> = p.iter().map(|&x| x as i16).collect();
        crate::oracle::lift(&mut d, w, h, c.filter);
        let q = if chroma { c.chroma_q() } else { c.q as i32 };
        crate::oracle::quantize(&mut d, w, h, q, 0, 1024 * c.boost());
        d
    }).collect()
}
/// Every `1 << ds`-th coefficient in both directions.
pub fn low_band(d: &[i16], c: &Cfg, ds: usize) -> Vec<i16> {
    let f = 1usize << ds;
    let (w, h) = (c.w as usize, c.h as usize);
    let mut v = vec![];
    for y in (0..h).step_by(f) {
        for x in (0..w).step_by(f) {
            v.push(d[y * w + x]);
        }
    }
    v
}
/// The image of size `(dw, dh)` for planar samples before the inverse color transform.
pub fn model_detransform(planes: &mut [Vec<i16>], c: &Cfg, prog: &Prog) -> Vec<u8> {
    let n = planes[0].len();
    for s in prog.0.iter().rev() {
        for i in 0..n {
            let mut sum = 0i16;
            for &(p, f) in &s.factors {
                sum = sum.wrapping_add(planes[p][i].wrapping_mul(f as i16));
            }
            planes[s.dest][i] = planes[s.dest][i].wrapping_sub((i32::from(sum) / s.denom) as i16);
        }
    }
    let ch = c.channels as usize;
    let mut out = vec![0u8; n * planes.len()];
    for (p, d) in planes.iter().enumerate() {
        let base = (p / ch) * n * ch + p % ch;
        for (i, &v) in d.iter().enumerate() {
            out[base + i * ch] = (i32::from(v) / c.boost()).clamp(0, 255) as u8;
        }
    }
    out
}
/// What decoding with downsampling must give: coarse coefficients of the dequantised full image,
/// inverse filters, inverse color transform.
pub fn model_decode(coefs: &[Vec<i16>], c: &Cfg, prog: &Prog, ds: usize) -> Vec<u8> {
    let chroma = prog.chroma(c.planes());
    let (dw, dh) = c.down(ds);
    let mut planes: Vec<Vec<i16>> = coefs.iter().zip(chroma).map(|(d, chroma)| {
        let mut d = d.clone();
        let q = if chroma { c.chroma_q() } else { c.q as i32 };
        crate::oracle::dequantize(&mut d, c.w as usize, c.h as usize, q, 0, 1024 * c.boost());
        let mut low = low_band(&d, c, ds);
        crate::oracle::unlift(&mut low, dw, dh, c.filter);
        low
    }).collect();
    model_detransform(&mut planes, c, prog)
}

/// The GFWX bit stream as a plain list of bits: an independent model of the Golomb-Rice codes.
#[derive(Default, Clone)]
pub struct BitModel(pub Vec<bool>);
impl BitModel {
    pub fn put(&mut self, x: u64, n: u32) {
        for i in (0..n).rev() {
            self.0.push(i < 64 && x >> i & 1 == 1);
        }
    }
    pub fn unsigned(&mut self, mut x: u64, mut pot: u32) {
        while x >> pot >= 12 {
            self.put(0, 12);
            x -= 12 << pot;
            pot = if pot < 20 { pot + 4 } else { 24 };
        }
        self.put(0, (x >> pot) as u32);
        self.put(1, 1);
        self.put(x & ((1 << pot) - 1), pot);
    }
    pub fn interleaved(&mut self, x: i64, pot: u32) {
        self.unsigned(if x <= 0 { -2 * x } else { 2 * x - 1 } as u64, pot)
    }
    pub fn signed(&mut self, x: i64, pot: u32) {
        self.unsigned(x.unsigned_abs(), pot);
        if x != 0 {
            self.put((x > 0) as u64, 1);
        }
    }
    /// whole little endian words, most significant bit first
    pub fn bytes(&self) -> Vec<u8> {
        self.0.chunks(32).flat_map(|c| {
            let mut w = 0u32;
            for (i, &b) in c.iter().enumerate() {
                w |= (b as u32) << (31 - i);
            }
            w.to_le_bytes()
        }).collect()
    }
}
