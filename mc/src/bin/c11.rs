//! C11: headers round-trip and invalid ones are rejected.
use gfwx::*;
use mc::ensure;
use mc::fw::*;

/// The fields as plain numbers, and what the format makes of them.
#[derive(Clone, Copy, Debug, PartialEq)]
struct F {
    width: u32,
    height: u32,
    layers: u32,
    channels: u32,
    quality: u32,
    chroma: u32,
    block: u32,
    filter: u32,
    enc: u32,
    intent: u32,
    meta: u32,
}
const GOOD: F = F { width: 5, height: 7, layers: 2, channels: 3, quality: 600, chroma: 8, block: 7, filter: 1, enc: 2, intent: 7, meta: 12 };
const FIELDS: usize = 11;
impl F {
    fn set(&mut self, field: usize, v: u32) {
        *[&mut self.width, &mut self.height, &mut self.layers, &mut self.channels, &mut self.quality, &mut self.chroma, &mut self.block, &mut self.filter,
            &mut self.enc, &mut self.intent, &mut self.meta][field] = v;
    }
    /// the interesting values a builder can be given for a field
    fn values(field: usize) -> Vec<u32> {
        match field {
            0 | 1 => {
                let mut v = vec![0, 1, 2, 3, 255, 256, 65535, 65536, 1 << 16 | 1, (1 << 24) - 1, 1 << 24, u32::MAX, 1 << 31];
                v.extend([(1 << 29) - 1, 1 << 29, (1 << 30) - 2, (1 << 30) - 1, 1 << 30, (1 << 30) + 1]);
                v
            }
            2 | 3 => vec![0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535],
            4 => vec![0, 1, 2, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 65535],
            5 => vec![0, 1, 2, 127, 128, 129, 254, 255],
            6 => vec![0, 1, 2, 3, 15, 16, 17, 29, 30, 31, 32, 33, 34, 63, 255],
            7 => vec![0, 1],
            8 => vec![0, 1, 2],
            9 => vec![0, 7, 8, 10, 11, 12],
            _ => vec![0, 4, 8, 1020, 1024, 65536, 1 << 30, u32::MAX - 3],
        }
    }
    fn builder(&self) -> HeaderBuilder {
        HeaderBuilder {
            width: self.width,
            height: self.height,
            layers: self.layers as u16,
            channels: self.channels as u16,
            quality: self.quality as u16,
            chroma_scale: self.chroma as u8,
            block_size: self.block as u8,
            filter: [Filter::Linear, Filter::Cubic][self.filter as usize],
            encoder: [Encoder::Turbo, Encoder::Fast, Encoder::Contextual][self.enc as usize],
            intent: match self.intent {
                0 => Intent::Generic,
                7 => Intent::RGB,
                8 => Intent::RGBA,
                10 => Intent::BGR,
                11 => Intent::BGRA,
                _ => Intent::YUV444,
            },
            metadata_size: self.meta,
        }
    }
    fn valid(&self) -> bool {
        let r = |v: u32, a: u32, b: u32| v >= a && v <= b;
        r(self.width, 1, (1 << 30) - 1) && r(self.height, 1, (1 << 30) - 1) && r(self.layers, 1, 65535) && r(self.channels, 1, 65535)
            && r(self.quality, 1, 1024) && r(self.chroma, 1, 255) && r(self.block, 2, 30)
            && u128::from(self.width) * u128::from(self.height) * u128::from(self.layers) * u128::from(self.channels) <= usize::MAX as u128
    }
    fn bytes(&self, version: u32, depth: u32) -> Vec<u8> {
        let mut v = b"GFWX".to_vec();
        v.extend(version.to_le_bytes());
        v.extend(self.width.to_le_bytes());
        v.extend(self.height.to_le_bytes());
        v.extend(((self.channels - 1) as u16).to_le_bytes());
        v.extend(((self.layers - 1) as u16).to_le_bytes());
        let word = (self.block - 2) | (self.chroma - 1) << 5 | (self.quality - 1) << 13 | (depth - 1) << 24;
        v.extend(word.to_le_bytes());
        v.extend([self.intent as u8, self.enc as u8, 0, self.filter as u8]);
        v.extend((self.meta / 4).to_le_bytes());
        v
    }
    fn matches(&self, h: &Header, version: u32, depth: u32) -> bool {
        h.version == version && h.width == self.width && h.height == self.height && u32::from(h.layers) == self.layers && u32::from(h.channels) == self.channels
            && u32::from(h.bit_depth) == depth && !h.is_signed && u32::from(h.quality) == self.quality && u32::from(h.chroma_scale) == self.chroma
            && u32::from(h.block_size) == self.block && h.filter as u32 == self.filter && h.quantization == Quantization::Scalar
            && h.encoder as u32 == self.enc && h.intent as u32 == self.intent && h.metadata_size == self.meta
            && h.get_channel_size() == self.width as usize * self.height as usize
            && h.get_image_size() == self.width as usize * self.height as usize * self.layers as usize * self.channels as usize
            && h.get_boost() == if self.quality == 1024 { 1 } else { 8 }
            && h.get_chroma_quality() == ((self.quality + self.chroma / 2) / self.chroma).max(1) as i32
    }
}

/// What the format makes of 32 bytes. None: must be rejected.
fn parse(b: &[u8]) -> Option<(F, u32, u32)> {
    let u32_at = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let u16_at = |p: usize| u32::from(u16::from_le_bytes(b[p..p + 2].try_into().unwrap()));
    if b.len() < 32 || &b[..4] != b"GFWX" {
        return None;
    }
    let w = u32_at(20);
    let f = F {
        width: u32_at(8),
        height: u32_at(12),
        channels: u16_at(16) + 1,
        layers: u16_at(18) + 1,
        block: (w & 31) + 2,
        chroma: (w >> 5 & 255) + 1,
        quality: (w >> 13 & 1023) + 1,
        intent: b[24].into(),
        enc: b[25].into(),
        filter: b[27].into(),
        meta: u32_at(28).checked_mul(4)?,
    };
    let depth = (w >> 24) + 1;
    let ok = f.valid() && (w >> 23 & 1) == 0 && depth <= 8 && [0, 7, 8, 10, 11, 12].contains(&f.intent) && f.enc <= 2 && b[26] == 0 && f.filter <= 1;
    ok.then_some((f, u32_at(4), depth))
}

/// gives one byte at a time
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(out.len()).min(1);
        out[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// the builder and everything behind it for one set of fields
fn build(f: &F, l: &mut Local) -> Res {
    let r = f.builder().build();
    l.op(1);
    match (r, f.valid()) {
        (Err(_), false) => {
            l.count("builder_rejects", 1);
            Ok(())
        }
        (Err(e), true) => Err(format!("{:?} is rejected: {}", f, e)),
        (Ok(_), false) => Err(format!("{:?} is accepted", f)),
        (Ok(h), true) => {
            ensure!(f.matches(&h, 1, 8), "{:?} builds {:?}", f, h);
            let mut v = vec![];
            h.encode(&mut v).map_err(|e| format!("{:?}: {}", f, e))?;
            ensure!(v == f.bytes(1, 8), "{:?} encodes to {}", f, hex(&v));
            let back = Header::decode(&mut &v[..]).map_err(|e| format!("{:?} does not decode: {}", f, e))?;
            ensure!(back == h, "{:?} decodes to {:?}", f, back);
            l.op(2);
            l.trace(1);
            l.outcome(hash(&v));
            Ok(())
        }
    }
}

/// the decoder for one string of at least 32 bytes
fn bytes(b: &[u8], l: &mut Local) -> Res {
    let mut s = b;
    let r = Header::decode(&mut s);
    l.op(1);
    match (r, parse(b)) {
        (Err(_), None) => {
            l.count("decoder_rejects", 1);
            Ok(())
        }
        (Ok(h), None) => Err(format!("{} is accepted: {:?}", hex(b), h)),
        (Err(e), Some(f)) => Err(format!("{} is rejected ({}), it is {:?}", hex(b), e, f)),
        (Ok(h), Some((f, version, depth))) => {
            ensure!(s.len() == b.len() - 32, "{}: {} bytes consumed", hex(b), b.len() - s.len());
            ensure!(f.matches(&h, version, depth), "{} decodes to {:?} instead of {:?}", hex(b), h, f);
            let mut v = vec![];
            h.encode(&mut v).map_err(|e| format!("{}: {}", hex(b), e))?;
            ensure!(v == b[..32], "{} encodes again to {}", hex(b), hex(&v));
            l.op(1);
            l.trace(1);
            l.outcome(hash(&v));
            Ok(())
        }
    }
}

fn bases() -> Vec<Vec<u8>> {
    vec![
        GOOD.bytes(1, 8),
        F { width: 1, height: 1, layers: 1, channels: 1, quality: 1024, chroma: 1, block: 2, filter: 0, enc: 0, intent: 0, meta: 0 }.bytes(1, 8),
        F { width: (1 << 30) - 1, height: 1, layers: 65535, channels: 255, quality: 1, chroma: 255, block: 30, filter: 1, enc: 1, intent: 12, meta: 4 }.bytes(0, 1),
        F { width: 256, height: 65536, layers: 256, channels: 256, quality: 512, chroma: 128, block: 16, filter: 0, enc: 2, intent: 10, meta: u32::MAX - 3 }
            .bytes(0xffff_ffff, 3),
    ]
}

fn main() {
    let mut k = Check::new("C11");
    // all pairs of fields over their values
    let pairs: Vec<(usize, usize)> = (0..FIELDS).flat_map(|a| (a + 1..FIELDS).map(move |b| (a, b))).collect();
    k.section("builder-pairs", pairs.len() as u64, |i, l| {
        let (a, b) = pairs[i as usize];
        for va in F::values(a) {
            for vb in F::values(b) {
                for mut f in [GOOD, F { width: 1, height: 1, layers: 1, channels: 1, quality: 1, chroma: 1, block: 2, filter: 0, enc: 0, intent: 0, meta: 0 }] {
                    f.set(a, va);
                    f.set(b, vb);
                    l.describe(format_args!("{:?}", f));
                    build(&f, l)?;
                    l.state(1);
                }
            }
        }
        l.sample(|| format!("fields {} and {} over {:?} x {:?}", a, b, F::values(a), F::values(b)));
        Ok(())
    });
    // sizes: all combinations
    k.section("builder-sizes", 19 * 19 * 11 * 11, |i, l| {
        let mut r = Radix(i);
        let mut f = GOOD;
        for field in 0..4 {
            f.set(field, r.of(&F::values(field)));
        }
        l.describe(format_args!("{:?}", f));
        build(&f, l)
    });
    // fields that the builder does not set: written where the format has them, and refused when read unless supported
    k.section("unsupported-data", 4 * 255 * 2 * 2, |i, l| {
        let mut r = Radix(i);
        let b = bases()[r.n(4) as usize].clone();
        let depth = r.n(255) as u8 + 1;
        let signed = r.n(2) == 1;
        let version = r.of(&[1u32, 0xFEDC_BA98]);
        l.describe(format_args!("{} depth {} signed {} version {:x}", hex(&b), depth, signed, version));
        let mut h = Header::decode(&mut &b[..]).map_err(|e| e.to_string())?;
        h.bit_depth = depth;
        h.is_signed = signed;
        h.version = version;
        let mut want = b[..32].to_vec();
        want[4..8].copy_from_slice(&version.to_le_bytes());
        want[22] = want[22] & 0x7F | (signed as u8) << 7;
        want[23] = depth - 1;
        let mut out = vec![];
        h.encode(&mut out).map_err(|e| e.to_string())?;
        ensure!(out == want, "written as {}", hex(&out));
        match Header::decode(&mut &out[..]) {
            Ok(g) => ensure!(!signed && depth <= 8 && g == h, "accepted as {:?}", g),
            Err(e) => ensure!(signed || depth > 8, "{}", e),
        }
        l.state(1);
        l.op(3);
        Ok(())
    });
    // whole ranges of the small fields
    k.section("builder-ranges", 65536, |i, l| {
        for field in [2, 3, 4] {
            let mut f = GOOD;
            f.set(field, i as u32);
            build(&f, l)?;
            l.state(1);
        }
        if i < 256 {
            for j in 0..256 {
                for quality in [1, 600, 1024] {
                    let f = F { chroma: i as u32, block: j, quality, ..GOOD };
                    build(&f, l)?;
                    l.state(1);
                }
            }
        }
        for shift in 0..2 {
            let f = F { width: (i as u32) << (16 * shift) | 1, height: 1, layers: 1, channels: 1, ..GOOD };
            build(&f, l)?;
            let f = F { height: (i as u32) << (16 * shift) | 1, width: 1, layers: 1, channels: 1, ..GOOD };
            build(&f, l)?;
            // metadata in words
            let f = F { meta: ((i as u32) << (14 * shift)) * 4, ..GOOD };
            build(&f, l)?;
            l.state(3);
        }
        Ok(())
    });
    // the packed field: every value
    k.section("packed-field", 1 << 16, |i, l| {
        let mut b = bases()[0].clone();
        b[20..22].copy_from_slice(&(i as u16).to_le_bytes());
        for v in 0..=255 {
            b[22] = v;
            bytes(&b, l)?;
        }
        l.state(255);
        Ok(())
    });
    // every value of every byte
    k.section("single-bytes", 4 * 32 * 256, |i, l| {
        let mut r = Radix(i);
        let mut b = bases()[r.n(4) as usize].clone();
        let v = r.n(256) as u8;
        b[r.n(32) as usize] = v;
        l.describe(format_args!("{}", hex(&b)));
        bytes(&b, l)
    });
    // two bytes
    let n2 = k.pick(20, 256);
    k.section("two-bytes", 4 * 31 * 256, |i, l| {
        const V: [u8; 20] = [0, 1, 2, 3, 4, 7, 8, 10, 11, 12, 13, 0x1f, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff];
        let mut r = Radix(i);
        let mut b = bases()[r.n(4) as usize].clone();
        let v = r.n(256) as u8;
        let p = r.n(31) as usize;
        b[p] = v;
        for p2 in p + 1..32 {
            let old = b[p2];
            for j in 0..n2 {
                b[p2] = if n2 == 256 { j as u8 } else { V[j as usize] };
                bytes(&b, l)?;
                l.state(1);
            }
            b[p2] = old;
        }
        Ok(())
    });
    // every two byte field and the metadata words, whole
    k.section("wide-fields", 65536, |i, l| {
        let v = (i as u16).to_le_bytes();
        for base in bases() {
            for p in [4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30] {
                let mut b = base.clone();
                b[p..p + 2].copy_from_slice(&v);
                bytes(&b, l)?;
                l.state(1);
            }
        }
        Ok(())
    });
    // truncation, slow readers, data behind the header, small output buffers
    k.section("truncation", 4 * 64, |i, l| {
        let mut r = Radix(i);
        let b = bases()[r.n(4) as usize].clone();
        let n = r.n(64) as usize;
        let mut d = b.clone();
        d.resize(64, 0xEE);
        d.truncate(n);
        l.describe(format_args!("{}", hex(&d)));
        if n >= 32 {
            bytes(&d, l)?;
            let mut s = Slow(&d);
            let h = Header::decode(&mut s).map_err(|e| format!("slow reader: {}", e))?;
            ensure!(s.0.len() == n - 32, "slow reader: {} bytes left", s.0.len());
            ensure!(h == Header::decode(&mut &d[..]).unwrap(), "slow reader: other header");
        } else {
            ensure!(Header::decode(&mut &d[..]).is_err(), "{} bytes are accepted", n);
            ensure!(Header::decode(&mut Slow(&d)).is_err(), "{} bytes are accepted from a slow reader", n);
        }
        let h = Header::decode(&mut &b[..]).map_err(|e| e.to_string())?;
        let mut out = vec![0x77u8; n];
        let mut o = &mut out[..];
        let r = h.encode(&mut o);
        let left = o.len();
        l.op(3);
        if n >= 32 {
            ensure!(r.is_ok() && left == n - 32 && out[..32] == b[..] && out[32..].iter().all(|&x| x == 0x77), "encoding into {} bytes", n);
        } else {
            ensure!(r.is_err(), "encoding into {} bytes succeeds", n);
        }
        l.trace(1);
        Ok(())
    });
    k.finish()
}
