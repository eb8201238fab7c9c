//! C22: streams behave the same however their bytes arrive, and failures of input and output are reported.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::errors::HeaderErr;
use gfwx::processing::image::Image;
use gfwx::*;
use mc::codec::*;
use mc::env::{self, Fault, Pace, Pipe, KINDS};
use mc::fw::*;
use mc::{ensure, gen};
use std::io;
use std::rc::Rc;

/// One operation over a pipe, with what it must do.
trait Task: Sync {
    fn name(&self) -> String;
    /// the bytes it produces, or consumes
    fn bytes(&self) -> Vec<u8>;
    fn writes(&self) -> bool;
    /// result as text, or the kind of the error it reports; other errors as `Err(Err(text))`
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>>;
}

struct HeaderIn(Cfg);
struct HeaderOut(Cfg);
struct ProgramIn(Prog, usize);
struct ProgramOut(Prog, usize);
struct BitsIn(Vec<(u32, u32)>);
struct BitsOut(Vec<(u32, u32)>);
struct BlockIn(Block);
struct BlockOut(Block);

fn header_bytes(c: &Cfg) -> Vec<u8> {
    let mut v = vec![];
    c.header().encode(&mut v).unwrap();
    v
}
impl Task for HeaderIn {
    fn name(&self) -> String { format!("Header::decode of {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> { header_bytes(&self.0) }
    fn writes(&self) -> bool { false }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        match Header::decode(p) {
            Ok(h) => Ok(format!("{:?}", h)),
            Err(HeaderErr::IOErr(e)) => Err(Ok(e.kind())),
            Err(e) => Err(Err(format!("{:?}", e))),
        }
    }
}
impl Task for HeaderOut {
    fn name(&self) -> String { format!("Header::encode of {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> { header_bytes(&self.0) }
    fn writes(&self) -> bool { true }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        self.0.header().encode(p).map(|_| String::new()).map_err(|e| Ok(e.kind()))
    }
}
fn program_bytes(p: &Prog) -> Vec<u8> {
    let mut b = BitModel::default();
    for x in p.ints() {
        b.signed(i64::from(x), 2);
    }
    b.bytes()
}
impl Task for ProgramIn {
    fn name(&self) -> String { format!("ColorTransformProgram::decode of {:?}", self.0.ints()) }
    fn bytes(&self) -> Vec<u8> { program_bytes(&self.0) }
    fn writes(&self) -> bool { false }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        let mut flags = vec![false; self.1];
        match ColorTransformProgram::decode(p, &mut flags) {
            Ok(h) => Ok(format!("{:?} {:?}", h, flags)),
            Err(DecompressError::IOErr(e)) => Err(Ok(e.kind())),
            Err(e) => Err(Err(format!("{:?}", e))),
        }
    }
}
impl Task for ProgramOut {
    fn name(&self) -> String { format!("ColorTransformProgram::encode of {:?}", self.0.ints()) }
    fn bytes(&self) -> Vec<u8> { program_bytes(&self.0) }
    fn writes(&self) -> bool { true }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        self.0.build().encode(self.1, p).map(|f| format!("{:?}", f)).map_err(|e| Ok(e.kind()))
    }
}
fn bit_bytes(ops: &[(u32, u32)]) -> Vec<u8> {
    let mut b = BitModel::default();
    for &(x, n) in ops {
        b.put(u64::from(x), n);
    }
    b.bytes()
}
impl Task for BitsIn {
    fn name(&self) -> String { format!("BitsIOReader {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> { bit_bytes(&self.0) }
    fn writes(&self) -> bool { false }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        let mut r = BitsIOReader::new(p);
        let mut v = vec![];
        for &(_, n) in &self.0 {
            v.push(r.get_bits(n).map_err(|e| Ok(e.kind()))?);
        }
        r.flush_read_word();
        Ok(format!("{:?}", v))
    }
}
impl Task for BitsOut {
    fn name(&self) -> String { format!("BitsIOWriter {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> { bit_bytes(&self.0) }
    fn writes(&self) -> bool { true }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        let mut w = BitsIOWriter::new(p);
        for &(x, n) in &self.0 {
            w.put_bits(x, n).map_err(|e| Ok(e.kind()))?;
        }
        w.flush_write_word().map_err(|e| Ok(e.kind()))?;
        Ok(String::new())
    }
}
#[derive(Clone, Debug)]
struct Block {
    w: usize,
    h: usize,
    step: usize,
    enc: u8,
    q: i32,
    dc: bool,
    chroma: bool,
    family: u64,
}
impl Block {
    fn scheme(&self) -> Encoder {
        [Encoder::Turbo, Encoder::Fast, Encoder::Contextual][self.enc as usize]
    }
    fn plane(&self) -> Vec<i16> {
        (0..self.w * self.h).map(|i| {
            let r = gen::mix(i as u64 * 31 + self.family);
            match self.family % 4 {
                0 => 0,
                1 => (r % 7) as i16 - 3,
                2 => if r % 5 == 0 { (r >> 8) as i16 >> 3 } else { 0 },
                _ => (r >> 8) as i16 >> 2,
            }
        }).collect()
    }
    fn encode(&self, stream: &mut impl BitsWriter) -> io::Result<()> {
        let mut d = self.plane();
        let chunk = Image::from_slice(&mut d, (self.w, self.h), 1).into_chunks_mut(self.step << 10, self.step).next().unwrap();
        encode::encode(&chunk, stream, self.scheme(), self.q, self.dc, self.chroma)?;
        stream.flush_write_word()
    }
}
impl Task for BlockIn {
    fn name(&self) -> String { format!("encode::decode of {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.0.encode(&mut BitsIOWriter::new(&mut v)).unwrap();
        v
    }
    fn writes(&self) -> bool { false }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        let b = &self.0;
        // coarser levels come first
        let mut d = b.plane();
        for (i, v) in d.iter_mut().enumerate() {
            let (x, y) = (i % b.w, i / b.w);
            if (x | y) & (2 * b.step - 1) != 0 || (b.dc && i == 0) {
                *v = 0;
            }
        }
        let chunk = Image::from_slice(&mut d, (b.w, b.h), 1).into_chunks_mut(b.step << 10, b.step).next().unwrap();
        encode::decode(chunk, &mut BitsIOReader::new(p), b.scheme(), b.q, b.dc, b.chroma).map_err(|e| Ok(e.kind()))?;
        Ok(format!("{:?}", d))
    }
}
impl Task for BlockOut {
    fn name(&self) -> String { format!("encode::encode of {:?}", self.0) }
    fn bytes(&self) -> Vec<u8> { BlockIn(self.0.clone()).bytes() }
    fn writes(&self) -> bool { true }
    fn run(&self, p: &mut Pipe<'_>) -> Result<String, Result<io::ErrorKind, String>> {
        self.0.encode(&mut BitsIOWriter::new(p)).map(|_| String::new()).map_err(|e| Ok(e.kind()))
    }
}

/// runs the task over a pipe and judges what it did; `want` is what it does over a plain one
fn judge(t: &dyn Task, bytes: &[u8], want: &str, fault: Fault, pace: Pace, l: &mut Local) -> Res {
    // more than the task may touch
    let mut data = bytes.to_vec();
    data.extend([0xFF, 0x00, 0xA7, 0x3C, 0x80, 0x01, 0x55, 0xFE, 0x00]);
    let mut p = if t.writes() { Pipe::writer(fault, pace) } else { Pipe::reader(&data, fault, pace) };
    let r = guarded(|| t.run(&mut p)).map_err(|e| format!("{} with {:?}: {}", t.name(), fault, e))?;
    l.op(1);
    l.trace(1);
    let done = if t.writes() { p.written.len() } else { p.pos };
    if t.writes() {
        ensure!(done <= bytes.len() && p.written == bytes[..done], "{} with {:?}: writes {} instead of {}", t.name(), fault, hex(&p.written), hex(bytes));
    }
    let (at, kind) = match fault {
        Fault::None => (usize::MAX, None),
        Fault::End(p) => (p, Some(if t.writes() { io::ErrorKind::WriteZero } else { io::ErrorKind::UnexpectedEof })),
        Fault::Error(p, k) | Fault::Once(p, k) => (p, Some(k)),
    };
    if at >= bytes.len() {
        let r = r.map_err(|e| format!("{} with {:?}: fails with {:?}", t.name(), fault, e))?;
        ensure!(r == want, "{} with {:?}: {} instead of {}", t.name(), fault, r, want);
        ensure!(done == bytes.len(), "{} with {:?}: transfers {} bytes instead of {}", t.name(), fault, done, bytes.len());
    } else {
        match r {
            Ok(r) => return Err(format!("{} with {:?}: succeeds with {}", t.name(), fault, r)),
            Err(e) => ensure!(e == Ok(kind.unwrap()), "{} with {:?}: reports {:?}", t.name(), fault, e),
        }
    }
    l.outcome(hash(format!("{:?} {}", fault, want).as_bytes()));
    Ok(())
}
fn plain(t: &dyn Task, bytes: &[u8]) -> Result<String, String> {
    let mut p = if t.writes() { Pipe::writer(Fault::None, Pace::All) } else { Pipe::reader(bytes, Fault::None, Pace::All) };
    let r = guarded(|| t.run(&mut p))?.map_err(|e| format!("{} fails: {:?}", t.name(), e))?;
    ensure!(!t.writes() || p.written == bytes, "{} writes {} instead of {}", t.name(), hex(&p.written), hex(bytes));
    Ok(r)
}
fn tasks(big: bool) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    for c in [Cfg::new(5, 7, 2, 3), Cfg { q: 1, chroma: 255, block: 30, filter: 1, enc: 2, intent: 12, ..Cfg::new(0x010203, 0x3ff, 0x102, 0x304) }, Cfg::new(255, 256, 1, 1)] {
        v.push(Box::new(HeaderIn(c)));
        v.push(Box::new(HeaderOut(c)));
    }
    let mut progs = Prog::library(6);
    progs.push(Prog((0..20).map(|s| st(s, &[(s + 1, s as i32 - 10), (0, 1)], 1 + s as i32, s % 3 == 0)).collect()));
    progs.push(Prog(vec![st(0, &[(1, i32::MAX), (2, -i32::MAX)], 32767, true)]));
    for p in progs {
        let n = p.planes_needed().max(3);
        v.push(Box::new(ProgramIn(p.clone(), n)));
        v.push(Box::new(ProgramOut(p, n)));
    }
    for widths in [&[1u32, 31, 32, 5][..], &[32, 32], &[31, 31, 31, 3], &[8, 8, 8, 8, 8], &[17, 30, 32, 2, 1, 32, 14], &[7; 23]] {
        let ops: Vec<(u32, u32)> = widths.iter().enumerate().map(|(i, &n)| ((gen::mix(i as u64 + 99) >> 16) as u32 >> (32 - n), n)).collect();
        v.push(Box::new(BitsIn(ops.clone())));
        v.push(Box::new(BitsOut(ops)));
    }
    for i in 0..if big { 3 * 4 * 2 * 3 } else { 24 } {
        let mut r = Radix(i);
        let (enc, family) = (r.of(&ENCS), r.n(4));
        let dc = r.bit();
        let step = r.of(&[1, 2, 4]);
        let b = Block { w: 6, h: 5, step, enc, q: 300, dc, chroma: i % 5 == 0, family: family + 4 * i };
        v.push(Box::new(BlockIn(b.clone())));
        v.push(Box::new(BlockOut(b)));
    }
    // a last run whose code fills more than a word, behind different numbers of bits
    for (w, enc) in [(70, 0), (70, 1), (70, 2), (300, 0), (300, 2)] {
        let b = Block { w, h: 40, step: 1, enc, q: 300, dc: w == 300, chroma: false, family: 4 };
        v.push(Box::new(BlockIn(b.clone())));
        v.push(Box::new(BlockOut(b)));
    }
    v
}

/// parameters of a header: sizes, layers, channels, quality, chroma, block, filter, quantization, encoder, intent
fn header_values() -> Vec<Vec<i32>> {
    let sizes = vec![1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 1 << 24, 0x010203, (1 << 30) - 1];
    vec![
        sizes.clone(), sizes,
        vec![1, 2, 255, 256, 0x102, 65535], vec![1, 2, 3, 4, 255, 256, 0x203, 65535],
        vec![1, 2, 127, 128, 255, 256, 512, 1023, 1024], vec![1, 2, 8, 127, 128, 254, 255],
        vec![2, 3, 7, 8, 15, 16, 29, 30],
        vec![0, 1], vec![0, 1, 2], (0..=17).collect(),
    ]
}
/// width, height, step, encoder, quality, first value, chroma, data
fn block_values() -> Vec<Vec<i32>> {
    vec![vec![1, 2, 3, 4, 5, 8, 9, 12, 17], vec![1, 2, 3, 4, 5, 8, 9, 12, 17], vec![1, 2, 4, 8], vec![0, 1, 2],
        vec![1, 8, 64, 300, 1023, 1024], vec![0, 1], vec![0, 1], (0..8).collect()]
}
fn task_of(kind: usize, row: &[i32], out: bool) -> Box<dyn Task> {
    match kind {
        0 => {
            let (c, p, _) = gen::program_of(row);
            if out { Box::new(ProgramOut(p, c.planes())) } else { Box::new(ProgramIn(p, c.planes())) }
        }
        1 => {
            let c = Cfg {
                q: row[4] as u32, chroma: row[5] as u32, block: row[6] as u32, filter: row[7] as u8, enc: row[8] as u8, intent: row[9] as u8,
                ..Cfg::new(row[0] as u32, row[1] as u32, row[2] as u32, row[3] as u32)
            };
            if out { Box::new(HeaderOut(c)) } else { Box::new(HeaderIn(c)) }
        }
        _ => {
            let b = Block { w: row[0] as usize, h: row[1] as usize, step: row[2] as usize, enc: row[3] as u8, q: row[4], dc: row[5] == 1, chroma: row[6] == 1, family: row[7] as u64 };
            if out { Box::new(BlockOut(b)) } else { Box::new(BlockIn(b)) }
        }
    }
}

fn main() {
    let mut k = Check::new("C22");
    let all = tasks(k.thorough);
    let (dev, cap) = k.pick((3, 400_000), (5, 20_000_000));
    // every way of splitting the transfers, with interruptions, up to a number of deviations from whole transfers
    k.section("transfers", all.len() as u64, |i, l| {
        let t = &*all[i as usize];
        let bytes = t.bytes();
        l.describe(format_args!("{}", t.name()));
        let want = plain(t, &bytes)?;
        let (n, complete) = env::explore(dev, cap, |s| judge(t, &bytes, &want, Fault::None, Pace::Chosen(Rc::clone(s)), l))?;
        l.state(n - 1);
        l.count(if complete { "operations with all transfers explored" } else { "operations stopped at the execution limit" }, 1);
        l.sample(|| format!("{}: {} transfer patterns", t.name(), n));
        Ok(())
    });
    // without a bound on deviations for headers: every composition of every field
    k.section("all-compositions", 2, |i, l| {
        let t = &*all[i as usize];
        let bytes = t.bytes();
        l.describe(format_args!("{}", t.name()));
        let want = plain(t, &bytes)?;
        // no interruptions: those would be endless
        let cuts_of = |mask: u32| -> Vec<usize> { (1..32).filter(|b| mask >> b & 1 == 1).collect() };
        // cuts within each aligned window of 16 bytes, and the same cuts in the other window
        for m in 0..1u32 << 16 {
            for mask in [m, m << 16, m | m << 16] {
                let cuts = cuts_of(mask);
                cut(t, &bytes, &want, &cuts, l)?;
                l.state(1);
            }
        }
        Ok(())
    });
    // each failure at each position, under every regular pace
    let paces = |n: usize| -> Vec<Pace> {
        vec![Pace::All, Pace::Max(1), Pace::Max(2), Pace::Max(3), Pace::Max(5), Pace::Max(7), Pace::Interrupted(1), Pace::Interrupted(3), Pace::Interrupted(n.max(1))]
    };
    k.section("failures", all.len() as u64, |i, l| {
        let t = &*all[i as usize];
        let bytes = t.bytes();
        l.describe(format_args!("{}", t.name()));
        let want = plain(t, &bytes)?;
        for pace in paces(bytes.len()) {
            judge(t, &bytes, &want, Fault::None, pace.clone(), l)?;
            for p in 0..bytes.len() + 4 {
                judge(t, &bytes, &want, Fault::End(p), pace.clone(), l)?;
                for (j, kind) in KINDS.into_iter().enumerate() {
                    judge(t, &bytes, &want, Fault::Error(p, kind), pace.clone(), l)?;
                    l.state(1);
                    if (j + p) % 6 == 0 {
                        judge(t, &bytes, &want, Fault::Once(p, kind), pace.clone(), l)?;
                    }
                }
            }
        }
        Ok(())
    });
    // combinations of parameters of each operation, under the extreme paces and with failures at the bytes
    let arrays = [
        gen::programs(2, true),
        gen::array(header_values(), 3),
        gen::array(block_values(), k.pick(3, 4)),
    ];
    for (kind, (name, a)) in ["program-array", "header-array", "block-array"].into_iter().zip(&arrays).enumerate() {
        k.section(name, a.len() * 2, |i, l| {
            let row = a.row(i / 2);
            // the number of samples has to fit
            if kind == 1 && row[..4].iter().map(|&x| x as u128).product::<u128>() >> 63 != 0 {
                return l.skip();
            }
            let t = task_of(kind, &row, i % 2 == 1);
            l.describe(format_args!("{}", t.name()));
            let bytes = t.bytes();
            let want = plain(&*t, &bytes)?;
            for pace in [Pace::Max(1), Pace::Max(3), Pace::Interrupted(1)] {
                judge(&*t, &bytes, &want, Fault::None, pace, l)?;
            }
            let every = 1 + bytes.len() / 48;
            for p in (0..bytes.len()).filter(|p| (p + i as usize) % every == 0 || *p + 9 > bytes.len()) {
                let kind = KINDS[(p + i as usize) % KINDS.len()];
                for (fault, pace) in [(Fault::End(p), Pace::All), (Fault::Error(p, kind), Pace::All), (Fault::Once(p, kind), Pace::All), (Fault::End(p), Pace::Max(1)), (Fault::Error(p, kind), Pace::Interrupted(2))] {
                    judge(&*t, &bytes, &want, fault, pace, l)?;
                    l.state(1);
                }
            }
            Ok(())
        });
    }
    // a failure in the middle of chosen transfers
    k.section("failures-under-transfers", all.len() as u64, |i, l| {
        let t = &*all[i as usize];
        let bytes = t.bytes();
        l.describe(format_args!("{}", t.name()));
        let want = plain(t, &bytes)?;
        for p in (0..bytes.len()).step_by(if bytes.len() > 64 { 7 } else { 1 }) {
            for fault in [Fault::End(p), Fault::Error(p, KINDS[p % KINDS.len()]), Fault::Once(p, KINDS[(p + 7) % KINDS.len()])] {
                let (n, _) = env::explore(1 + (bytes.len() < 64) as usize, 2000, |s| judge(t, &bytes, &want, fault, Pace::Chosen(Rc::clone(s)), l))?;
                l.state(n);
            }
        }
        Ok(())
    });
    // a whole file read piece by piece from one source: each part takes exactly its bytes
    let lib = Prog::library(6);
    k.section("files", 14 * 6 * 9, |i, l| {
        let mut r = Radix(i);
        let prog = &lib[r.n(14) as usize % lib.len()];
        let (filter, enc) = (r.of(&FILTERS), r.of(&ENCS));
        let c = Cfg { filter, enc, q: [1024, 300][i as usize % 2], ..Cfg::new(7, 6, 1, 6) };
        let img = gen::image(i % gen::FAMILIES, &c);
        let pace = paces(64)[r.n(9) as usize].clone();
        l.describe(format_args!("{:?} program {:?}", c, prog.ints()));
        if !prog.in_range(&img, &c) {
            return l.skip();
        }
        let s = compress(&img, &c, &prog.build())?;
        let mut p = Pipe::reader(&s, Fault::None, pace.clone());
        let h = Header::decode(&mut p).map_err(|e| format!("header: {:?}", e))?;
        ensure!(h == c.header(), "header {:?}", h);
        let mut flags = vec![false; c.planes()];
        let program = ColorTransformProgram::decode(&mut p, &mut flags).map_err(|e| format!("program: {:?}", e))?;
        ensure!(program == prog.build() && flags == prog.chroma(c.planes()), "program {:?}", program);
        let payload = &s[p.pos..];
        let mut aux = vec![0; c.pixels()];
        let r = decompress_aux_data(payload, &h, &flags, 0, false, &mut aux).map_err(|e| format!("payload: {:?}", e))?;
        let mut out = vec![0u8; c.pixels()];
        program.detransform_and_to_interleaved(&mut aux, &h, h.get_channel_size(), &mut out);
        let (want_r, want) = decompress(&s, 0)?;
        ensure!(r == want_r && out == want, "reading piece by piece gives other pixels");
        // and written piece by piece
        let mut w = Pipe::writer(Fault::None, pace);
        c.header().encode(&mut w).map_err(|e| format!("{}", e))?;
        prog.build().encode(c.planes(), &mut w).map_err(|e| format!("{}", e))?;
        ensure!(w.written == s[..s.len() - payload.len()], "writing piece by piece gives {}", hex(&w.written));
        l.op(6);
        l.trace(2);
        l.outcome(hash(&s));
        Ok(())
    });
    k.finish()
}

/// transfers end at the given positions
fn cut(t: &dyn Task, bytes: &[u8], want: &str, cuts: &[usize], l: &mut Local) -> Res {
    struct Cut<'a>(Pipe<'a>, &'a [usize]);
    impl Cut<'_> {
        fn left(&self, at: usize, want: usize) -> usize {
            self.1.iter().find(|&&c| c > at).map_or(want, |c| want.min(c - at))
        }
    }
    impl io::Read for Cut<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = self.left(self.0.pos, buf.len());
            self.0.read(&mut buf[..n])
        }
    }
    impl io::Write for Cut<'_> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let n = self.left(self.0.written.len(), buf.len());
            self.0.write(&buf[..n])
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let _ = want;
    l.op(1);
    l.trace(1);
    if t.writes() {
        let mut p = Cut(Pipe::writer(Fault::None, Pace::All), cuts);
        let h = Header::decode(&mut &bytes[..]).unwrap();
        h.encode(&mut p).map_err(|e| format!("{} cut at {:?}: {}", t.name(), cuts, e))?;
        ensure!(p.0.written == bytes, "{} cut at {:?}: {}", t.name(), cuts, hex(&p.0.written));
    } else {
        let mut p = Cut(Pipe::reader(bytes, Fault::None, Pace::All), cuts);
        let h = Header::decode(&mut p).map_err(|e| format!("{} cut at {:?}: {:?}", t.name(), cuts, e))?;
        ensure!(format!("{:?}", h) == want && p.0.pos == 32, "{} cut at {:?}: {:?}", t.name(), cuts, h);
    }
    Ok(())
}
