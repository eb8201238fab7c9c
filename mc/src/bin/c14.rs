//! C14: bit streams and Golomb codes are inverse pairs at every alignment.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode::*;
use mc::codec::BitModel;
use mc::fw::*;
use mc::{ensure, gen, oracle};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bits(u32, u32),
    Unsigned(u32, u32),
    Interleaved(i32, u32),
    Signed(i32, u32),
    Flush,
}
fn model(ops: &[Op]) -> BitModel {
    let mut m = BitModel::default();
    for op in ops {
        match *op {
            Op::Bits(x, n) => m.put(x.into(), n),
            Op::Unsigned(x, p) => m.unsigned(x.into(), p),
            Op::Interleaved(x, p) => m.interleaved(x.into(), p),
            Op::Signed(x, p) => m.signed(x.into(), p),
            Op::Flush => {
                let n = m.0.len().div_ceil(32) * 32;
                m.0.resize(n, false);
            }
        }
    }
    m
}
fn write(ops: &[Op], w: &mut impl BitsWriter) -> std::io::Result<()> {
    for op in ops {
        match *op {
            Op::Bits(x, n) => w.put_bits(x, n)?,
            Op::Unsigned(x, p) => unsigned_code(x, w, p)?,
            Op::Interleaved(x, p) => interleaved_code(x, w, p)?,
            Op::Signed(x, p) => signed_code(x, w, p)?,
            Op::Flush => w.flush_write_word()?,
        }
    }
    Ok(())
}
fn read(op: Op, r: &mut impl BitsReader) -> std::io::Result<Op> {
    Ok(match op {
        Op::Bits(_, n) => Op::Bits(r.get_bits(n)?, n),
        Op::Unsigned(_, p) => Op::Unsigned(unsigned_decode(r, p)?, p),
        Op::Interleaved(_, p) => Op::Interleaved(interleaved_decode(r, p)?, p),
        Op::Signed(_, p) => Op::Signed(signed_decode(r, p)?, p),
        Op::Flush => {
            r.flush_read_word();
            Op::Flush
        }
    })
}

/// Writes the operations, compares the bytes, reads them back, probes both ends.
fn sequence(ops: &[Op], ends: bool, l: &mut Local) -> Res {
    let want = model(ops).bytes();
    let mut got = vec![];
    {
        let mut w = BitsIOWriter::new(&mut got);
        write(ops, &mut w).map_err(|e| format!("{:?}: {}", ops, e))?;
        w.flush_write_word().map_err(|e| format!("{:?}: {}", ops, e))?;
    }
    ensure!(got == want, "{:?}: bytes {} instead of {}", ops, hex(&got), hex(&want));
    let mut s = &got[..];
    {
        let mut r = BitsIOReader::new(&mut s);
        for (i, &op) in ops.iter().enumerate() {
            let v = read(op, &mut r).map_err(|e| format!("{:?}: reading {}: {}", ops, i, e))?;
            ensure!(v == op, "{:?}: operation {} reads {:?}", ops, i, v);
        }
    }
    ensure!(s.is_empty(), "{:?}: {} bytes not consumed", ops, s.len());
    l.op(2);
    l.trace(1);
    l.outcome(hash(&got));
    if ends {
        // every buffer size: error, or all of it; nothing behind
        for cap in 0..=want.len() + 5 {
            let mut mem = vec![0x5Au8; cap + 8];
            let r = {
                let mut b = &mut mem[..cap];
                let mut w = BitsIOWriter::new(&mut b);
                write(ops, &mut w).and_then(|_| w.flush_write_word())
            };
            ensure!(r.is_ok() == (cap >= want.len()), "{:?}: {} bytes written to a buffer of {}: {:?}", ops, want.len(), cap, r);
            ensure!(mem[cap..].iter().all(|&b| b == 0x5A), "{:?}: memory behind a buffer of {} changed", ops, cap);
            if cap >= want.len() {
                ensure!(mem[..want.len()] == want[..] && mem[want.len()..].iter().all(|&b| b == 0x5A), "{:?}: buffer of {}", ops, cap);
            }
        }
        // every truncation is an error at the first operation that needs a missing word
        for cut in 0..want.len() {
            let mut s = &want[..cut];
            let mut r = BitsIOReader::new(&mut s);
            let mut failed = false;
            for (i, &op) in ops.iter().enumerate() {
                let needed = model(&ops[..=i]).0.len().div_ceil(32) * 4;
                match read(op, &mut r) {
                    Ok(v) => ensure!(v == op && (needed <= cut || op == Op::Flush), "{:?}: {} bytes of {} left, operation {} reads {:?}", ops, cut, want.len(), i, v),
                    Err(_) => {
                        ensure!(needed > cut, "{:?}: operation {} fails although its {} bytes are there", ops, i, needed);
                        failed = true;
                        break;
                    }
                }
            }
            let needed = model(ops).0.len().div_ceil(32) * 4;
            ensure!(failed || needed <= cut, "{:?}: {} of {} bytes are enough", ops, cut, want.len());
        }
    }
    Ok(())
}

fn values(n: u32) -> [u32; 5] {
    let m = (!0u32) >> (32 - n);
    [0, m, 1, 0xAAAA_AAAA & m, 1 << (n - 1)]
}

/// all interesting values for a parameter: around powers of two and around every escape
fn edges(pot: u32) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..32 {
        for d in -2i64..=2 {
            v.push((1i64 << k) + d);
        }
    }
    let (mut p, mut base) = (pot, 0i64);
    while base < 1 << 32 {
        for y in [0, 1, 11, 12, 13] {
            for d in -1..=1 {
                v.push(base + (y << p) + d);
            }
        }
        base += 12 << p;
        p = if p < 20 { p + 4 } else { 24 };
        if v.len() > 1500 {
            break;
        }
    }
    v.push((1 << 32) - 1);
    v.push((1 << 32) - 2);
    let mut v: Vec<u32> = v.into_iter().filter_map(|x| u32::try_from(x).ok()).collect();
    v.sort();
    v.dedup();
    v
}
const LIM: i64 = (1 << 30) - 1;

fn golomb(kind: u64, x: i64, pot: u32) -> Option<Op> {
    match kind {
        0 => u32::try_from(x).ok().map(|x| Op::Unsigned(x, pot)),
        1 => (x.abs() <= LIM).then(|| Op::Interleaved(x as i32, pot)),
        _ => (x.abs() <= i64::from(i32::MAX)).then(|| Op::Signed(x as i32, pot)),
    }
}
/// one code at one alignment, between other bits
fn one_code(op: Op, align: u32, ends: bool, l: &mut Local) -> Res {
    let mut ops = vec![];
    if align > 0 {
        ops.push(Op::Bits(0x5555_5555 & ((1u32 << align) - 1), align));
    }
    ops.extend([op, Op::Bits(0b1011, 4), Op::Flush, Op::Bits(0x8000_0001, 32)]);
    sequence(&ops, ends, l)
}
/// against the C++ reference
fn reference(kind: u64, x: i64, pot: u32, l: &mut Local) -> Res {
    if pot > 4 {
        return Ok(());
    }
    if let Some(op) = golomb(kind, x, pot) {
        let m = model(&[op]);
        // codes that the reference itself can write: no single code above 32 bits
        if x.abs() << (kind == 1) as u32 > 1 << 27 {
            return Ok(());
        }
        let mut out = [0u32; 16];
        let n = oracle::golomb(kind as u8, x as u32, pot, &mut out);
        let bytes: Vec<u8> = out[..n].iter().flat_map(|w| w.to_le_bytes()).collect();
        assert_eq!(m.bytes(), bytes, "model of the Golomb codes is not the reference: {:?}", op);
        l.trace(1);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C14");
    // every triple of widths
    k.section("three-writes", 32 * 32 * 32, |i, l| {
        let mut r = Radix(i);
        let (a, b, c) = (r.n(32) as u32 + 1, r.n(32) as u32 + 1, r.n(32) as u32 + 1);
        for (j, &x) in values(a).iter().enumerate() {
            for &y in &values(b) {
                for &z in &values(c) {
                    sequence(&[Op::Bits(x, a), Op::Bits(y, b), Op::Bits(z, c)], false, l)?;
                    l.state(1);
                }
            }
            sequence(&[Op::Bits(x, a), Op::Flush, Op::Bits(values(b)[j], b), Op::Flush, Op::Flush, Op::Bits(x, a), Op::Bits(values(c)[4 - j], c)], j == 1, l)?;
        }
        l.sample(|| format!("widths {} {} {} with {:?} {:?} {:?}", a, b, c, values(a), values(b), values(c)));
        Ok(())
    });
    // sequences over a set of operations
    let len = k.pick(5, 6);
    const OPS: [Op; 14] = [Op::Bits(1, 1), Op::Bits(0, 1), Op::Bits(5, 7), Op::Bits(0xff, 8), Op::Bits(0x00ab_cdef, 24), Op::Bits(0x7fff_ffff, 31), Op::Bits(0, 31),
        Op::Bits(0x8000_0001, 32), Op::Flush, Op::Unsigned(13, 0), Op::Interleaved(-4, 1), Op::Signed(-700, 2), Op::Signed(0, 4), Op::Unsigned(100_000, 3)];
    k.section("sequences", pow(14, len - 1), |i, l| {
        let mut r = Radix(i);
        let mut ops: Vec<Op> = (1..len).map(|_| r.of(&OPS)).collect();
        for last in OPS {
            ops.push(last);
            sequence(&ops, i % 16 == 0, l)?;
            ops.pop();
            l.state(1);
        }
        Ok(())
    });
    // reachable reader and writer states: one operation of every width from every position, repeated
    k.section("periodic", 32 * 32, |i, l| {
        let mut r = Radix(i);
        let (a, n) = (r.n(32) as u32, r.n(32) as u32 + 1);
        for v in values(n) {
            let mut ops = vec![];
            if a > 0 {
                ops.push(Op::Bits(1, a));
            }
            ops.extend((0..70u32).map(|j| Op::Bits(if j % 3 == 0 { v } else { (gen::mix(u64::from(j)) as u32) >> (32 - n) }, n)));
            sequence(&ops, v == 1, l)?;
        }
        Ok(())
    });
    // zero runs at every position, length and limit
    k.section("zero-runs", 64 * 100, |i, l| {
        let mut r = Radix(i);
        let (pos, run) = (r.n(64) as u32, r.n(100) as u32);
        let mut m = BitModel::default();
        for j in 0..pos {
            m.put((j % 3 != 1) as u64, 1);
        }
        m.put(0, run);
        m.put(1, 1);
        m.put(0b0110_1001, 8);
        let bits = m.0.clone();
        let data = m.bytes();
        for max in 1..=100u32 {
            let mut s = &data[..];
            let mut rd = BitsIOReader::new(&mut s);
            let mut left = pos;
            while left > 0 {
                let n = left.min(1 + (i as u32 + left) % 32);
                rd.get_bits(n).map_err(|e| e.to_string())?;
                left -= n;
            }
            // bitwise reading
            let n = run.min(max);
            let consumed = if run >= max { max } else { run + 1 };
            let got = rd.get_zeros(max).map_err(|e| format!("position {} run {} limit {}: {}", pos, run, max, e))?;
            l.op(1);
            ensure!(got == n, "position {} run {} limit {}: {} zeros", pos, run, max, got);
            for j in (pos + consumed) as usize..bits.len() {
                let b = rd.get_bits(1).map_err(|e| format!("position {} run {} limit {}: {}", pos, run, max, e))?;
                ensure!((b == 1) == bits[j], "position {} run {} limit {}: bit {} behind the run", pos, run, max, j);
            }
            l.state(1);
            l.trace(1);
        }
        // run that reaches the end of data
        let zeros = vec![0u8; (pos / 32 + 1) as usize * 4];
        let mut s = &zeros[..];
        let mut rd = BitsIOReader::new(&mut s);
        if pos > 0 {
            for _ in 0..pos {
                rd.get_bits(1).map_err(|e| e.to_string())?;
            }
        }
        let avail = zeros.len() as u32 * 8 - pos;
        let r = rd.get_zeros(run + 1);
        ensure!(r.is_ok() == (run < avail), "{} zeros wanted of {}: {:?}", run + 1, avail, r);
        Ok(())
    });
    // all small values, every parameter
    let small = k.pick(1 << 12, 1 << 16);
    k.section("small-values", small * 3, |i, l| {
        let mut r = Radix(i);
        let kind = r.n(3);
        let x = r.n(small) as i64;
        for pot in 0..=24u32 {
            for x in [x, -x] {
                if let Some(op) = golomb(kind, x, pot) {
                    one_code(op, (i as u32 + pot * 5) % 32, false, l)?;
                    reference(kind, x, pot, l)?;
                    l.state(1);
                }
            }
        }
        Ok(())
    });
    // edges at every alignment
    let aligns = k.pick(8, 32);
    k.section("edges", 25 * 32 * 3, |i, l| {
        let mut r = Radix(i);
        let pot = r.n(25) as u32;
        let align = r.n(32) as u32;
        let kind = r.n(3);
        for (j, x) in edges(pot).into_iter().enumerate() {
            if (j as u64 + align as u64) % (32 / aligns) != 0 {
                continue;
            }
            for x in [i64::from(x), -i64::from(x), i64::from(x / 2), -i64::from(x / 2)] {
                if let Some(op) = golomb(kind, x, pot) {
                    l.describe(format_args!("{:?} at {}", op, align));
                    one_code(op, align, j % 32 == 0, l)?;
                    reference(kind, x, pot, l)?;
                    l.state(1);
                }
            }
        }
        l.sample(|| format!("parameter {} alignment {} kind {}: {} values", pot, align, kind, edges(pot).len()));
        Ok(())
    });
    // two codes behind each other, all kinds and parameters the codec uses
    const XS: [i64; 15] = [0, 1, -1, 2, -3, 5, 11, -12, 23, 24, -47, 191, -1000, 40000, -65535];
    k.section("two-codes", pow(15 * 3 * 5, 2), |i, l| {
        let mut r = Radix(i);
        let mut code = || {
            let (x, kind, pot) = (r.of(&XS), r.n(3), r.n(5) as u32);
            golomb(kind, if kind == 0 { x.abs() } else { x }, pot).unwrap()
        };
        let (a, b) = (code(), code());
        sequence(&[a, b], i % 8 == 0, l)?;
        sequence(&[a, a, b, a, b, b], false, l)
    });
    // any bits decode as the codes say
    let bits = k.pick(16, 22);
    k.section("any-bits", 1 << bits, |i, l| {
        for low in [0u32, !0, 0x0f0f_1234] {
            let words = [((i as u32) << (32 - bits)) | (low >> bits), low.rotate_left(9), !low, 0x8000_0000, 0xffff_ffff, 0xffff_ffff];
            let data: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
            let bit = |p: usize| words[p / 32] >> (31 - p % 32) & 1;
            for pot in 0..=4u32 {
                // by definition
                let (mut pos, mut x, mut p) = (0usize, 0u64, pot);
                let value = loop {
                    let mut y = 0;
                    let mut escaped = true;
                    while y < 12 {
                        pos += 1;
                        if bit(pos - 1) == 1 {
                            escaped = false;
                            break;
                        }
                        y += 1;
                    }
                    if escaped {
                        x += 12 << p;
                        p = if p < 20 { p + 4 } else { 24 };
                        continue;
                    }
                    let mut v = 0;
                    for _ in 0..p {
                        v = v * 2 + u64::from(bit(pos));
                        pos += 1;
                    }
                    break x + (y << p) + v;
                };
                let mut s = &data[..];
                let mut r = BitsIOReader::new(&mut s);
                let got = unsigned_decode(&mut r, pot).map_err(|e| e.to_string())?;
                ensure!(u64::from(got) == value & 0xffff_ffff, "words {:x?} parameter {}: {} instead of {}", words, pot, got, value);
                // and stops at the right bit
                let n = (words.len() * 32 - pos).min(32) as u32;
                let next = (0..n as usize).fold(0u32, |a, j| a << 1 | bit(pos + j));
                let got = r.get_bits(n).map_err(|e| e.to_string())?;
                ensure!(got == next, "words {:x?} parameter {}: next bits {:x} instead of {:x}", words, pot, got, next);
                l.op(2);
                l.trace(1);
                l.state(1);
            }
        }
        Ok(())
    });
    k.finish()
}
