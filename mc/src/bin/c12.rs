//! C12: color programs serialise faithfully.
use gfwx::*;
use mc::codec::*;
use mc::{ensure, gen};
use mc::fw::*;

fn model_bytes(p: &Prog) -> Vec<u8> {
    numbers(p.ints().iter().map(|&v| i64::from(v)))
}
fn numbers(v: impl Iterator<Item = i64>) -> Vec<u8> {
    let mut b = BitModel::default();
    for x in v {
        b.signed(x, 2);
    }
    b.bytes()
}

/// one program, both ways
fn both_ways(p: &Prog, channels: usize, l: &mut Local) -> Res {
    let built = p.build();
    ensure!(Prog::from_program(&built) == *p, "builder gives {:?}", built);
    let want = model_bytes(p);
    let mut got = vec![];
    let chroma = guarded(|| built.encode(channels, &mut got))?.map_err(|e| format!("encode: {}", e))?;
    ensure!(got == want, "encodes to {} instead of {}", hex(&got), hex(&want));
    ensure!(chroma == p.chroma(channels), "encoder reports chroma {:?}", chroma);
    // something else follows
    let mut data = got.clone();
    data.extend([0xC3, 0x5A, 0xFF, 0x00, 0x81]);
    let mut s = &data[..];
    let mut flags = vec![false; channels];
    let back = guarded(|| ColorTransformProgram::decode(&mut s, &mut flags))?.map_err(|e| format!("decode: {:?}", e))?;
    ensure!(s.len() == 5, "decoding leaves {} bytes behind the program of {}", s.len() as i64 - 5, got.len());
    ensure!(back == built, "decodes to {:?}", back);
    ensure!(flags == chroma, "decoder reports chroma {:?} instead of {:?}", flags, chroma);
    l.op(3);
    l.trace(1);
    l.outcome(hash(&got));
    Ok(())
}

#[derive(Debug, PartialEq)]
enum Parsed {
    Program(Prog),
    Rejected,
    /// ends before the program does
    Short,
}
/// what a sequence of numbers means
fn parse(nums: &[i64], channels: i64) -> Parsed {
    let mut it = nums.iter().copied();
    let mut p = Prog::none();
    macro_rules! next {
        () => {
            match it.next() {
                Some(v) => v,
                None => return Parsed::Short,
            }
        };
    }
    loop {
        let dest = next!();
        if dest < 0 {
            return Parsed::Program(p);
        }
        if dest >= channels {
            return Parsed::Rejected;
        }
        let mut step = st(dest as usize, &[], 1, false);
        loop {
            let src = next!();
            if src < 0 {
                break;
            }
            if src >= channels {
                return Parsed::Rejected;
            }
            step.factors.push((src as usize, next!() as i32));
        }
        step.denom = next!() as i32;
        if step.denom < 1 || step.denom > 32767 {
            return Parsed::Rejected;
        }
        step.chroma = next!() != 0;
        p.0.push(step);
    }
}

/// all steps over small alphabets
fn steps() -> Vec<Step> {
    let mut v = vec![];
    let mut factor_lists = vec![vec![]];
    let single: Vec<(usize, i32)> = [0usize, 1, 2].iter().flat_map(|&c| [-2, -1, 0, 1, 3].iter().map(move |&f| (c, f))).collect();
    factor_lists.extend(single.iter().map(|&a| vec![a]));
    for &a in &single {
        for &b in &single {
            factor_lists.push(vec![a, b]);
        }
    }
    for dest in 0..3 {
        for f in &factor_lists {
            for denom in [1, 2, 3, 8] {
                for chroma in [false, true] {
                    v.push(st(dest, f, denom, chroma));
                }
            }
        }
    }
    v
}

fn main() {
    let mut k = Check::new("C12");
    let all = steps();
    let n = all.len() as u64;
    k.section("one-step", n, |i, l| {
        let p = Prog(vec![all[i as usize].clone()]);
        l.describe(format_args!("{:?}", p.ints()));
        l.sample(|| format!("{:?}", p.ints()));
        both_ways(&p, 3, l)
    });
    // every combination of few numbers
    let chan = vec![0, 1, 2, 3, 11, 12, 47, 48, 49, 59, 60, 239, 240, 241, 1007, 1008, 4000, 16384, 65535];
    let mut factor = vec![0];
    for f in [1, 2, 3, 4, 7, 8, 11, 12, 47, 48, 49, 51, 52, 127, 128, 239, 240, 255, 256, 1007, 1008, 4096, 32767, 32768, 100_000, 1 << 20, i32::MAX] {
        factor.extend([f, -f]);
    }
    let denominator = vec![1, 2, 3, 4, 7, 8, 47, 48, 100, 239, 240, 255, 256, 1008, 4095, 4096, 16384, 32767];
    let step = [chan.clone(), vec![0, 1, 2, 3, 5, 9], chan.clone(), factor.clone(), chan.clone(), factor, denominator, vec![0, 1]];
    let mut columns = vec![vec![1, 2, 3, 4, 5, 6]];
    columns.extend(step.clone());
    columns.extend(step);
    for (name, t) in [("pairs", 2), ("triples", 3)] {
        let array = gen::array(columns.clone(), t);
        k.section(name, array.len(), |i, l| {
            if i == 0 {
                l.count("combinations", array.tuples);
            }
            let r = array.row(i);
            let mut used: Vec<usize> = vec![];
            let p = Prog((0..r[0] as usize).map(|j| {
                let a = if j % 2 == 0 { &r[1..9] } else { &r[9..17] };
                let b = if j < 2 { a } else { &r[1..9] };
                let factors: Vec<(usize, i32)> = (0..a[1] as usize).map(|m| if m % 2 == 0 { (a[2] as usize, b[3]) } else { (b[4] as usize, a[5]) }).collect();
                let mut dest = a[0] as usize;
                while used.contains(&dest) {
                    dest = (dest + 1) % 65536;
                }
                used.push(dest);
                st(dest, &factors, b[6], a[7] == 1)
            }).collect());
            l.describe(format_args!("{:?}", p.ints()));
            l.state(1);
            both_ways(&p, 65536, l)
        });
    }
    // the same over small numbers, and no more planes than needed
    let small = gen::programs(3, true);
    k.section("small-triples", small.len(), |i, l| {
        let (c, p, _) = gen::program_of(&small.row(i));
        l.describe(format_args!("{:?} for {} planes", p.ints(), c.planes()));
        l.state(1);
        both_ways(&p, c.planes(), l)
    });
    // two steps with different destinations
    let stride = k.pick(7, 1);
    k.section("two-steps", n, |i, l| {
        let a = &all[i as usize];
        for b in all.iter().skip((i % stride) as usize).step_by(stride as usize) {
            if b.dest != a.dest {
                let p = Prog(vec![a.clone(), b.clone()]);
                l.describe(format_args!("{:?}", p.ints()));
                both_ways(&p, 3, l)?;
                l.state(1);
            }
        }
        Ok(())
    });
    // three steps from a shorter list
    let short: Vec<Step> = all.iter().filter(|s| s.factors.len() < 2 && s.factors.iter().all(|f| f.1 != 0 && f.1 != 3)).cloned().collect();
    let sn = short.len() as u64;
    k.section("three-steps", sn, |i, l| {
        let a = &short[i as usize];
        for b in short.iter().filter(|b| b.dest != a.dest) {
            for c in short.iter().filter(|c| c.dest != a.dest && c.dest != b.dest) {
                let p = Prog(vec![a.clone(), b.clone(), c.clone()]);
                l.describe(format_args!("{:?}", p.ints()));
                both_ways(&p, 4, l)?;
                l.state(1);
            }
        }
        Ok(())
    });
    // every 16 bit factor, every denominator, every channel
    k.section("factors", 65536, |i, l| {
        let f = i as i32 - 32768;
        for pre in 0..3 {
            // other alignments
            let p = Prog(vec![st(1, &vec![(0, 1); pre], 1, true), st(0, &[(1, f)], 1, false)]);
            l.describe(format_args!("{:?}", p.ints()));
            both_ways(&p, 2, l)?;
            l.state(1);
        }
        Ok(())
    });
    k.section("denominators", 32767, |i, l| {
        let p = Prog(vec![st(1, &[(0, 1)], i as i32 + 1, i % 2 == 0)]);
        l.describe(format_args!("{:?}", p.ints()));
        both_ways(&p, 2, l)
    });
    let chans = k.pick(3000, 65536);
    k.section("channels", chans, |i, l| {
        let channels = chans as usize;
        let p = Prog(vec![st(i as usize, &[((i as usize + 1) % channels, -1)], 1, true)]);
        l.describe(format_args!("{:?}", p.ints()));
        if i % 61 == 0 || i < 300 {
            both_ways(&p, channels, l)
        } else {
            both_ways(&p, i.max((i + 1) % chans) as usize + 1, l)
        }
    });
    const EXTREME: [i32; 16] = [i32::MAX, -i32::MAX, i32::MAX - 1, 1 << 30, -(1 << 30), (1 << 24) - 1, 1 << 24, 12 << 24, 65535, 65536, -65536, 32767, -32768, 47, 48, -49];
    k.section("extreme-factors", 16 * 16 * 33, |i, l| {
        let mut r = Radix(i);
        let (a, b) = (r.of(&EXTREME), r.of(&EXTREME));
        let pad = r.n(33) as usize;
        // padding factors move the codes to all alignments
        let mut f = vec![(0, 0); pad];
        f.extend([(1, a), (2, b)]);
        let p = Prog(vec![st(3, &f, 5, true)]);
        l.describe(format_args!("{:?}", p.ints()));
        both_ways(&p, 4, l)
    });
    // long programs, all buffer sizes
    k.section("lengths", 200, |i, l| {
        let p = Prog((0..i as usize).map(|s| st(s, &[(s + 1, s as i32 - 100), (0, 1)], 1 + s as i32, s % 3 == 0)).collect());
        l.describe(format_args!("{} steps", i));
        both_ways(&p, 202, l)?;
        let want = model_bytes(&p);
        ensure!(want.len() % 4 == 0, "not whole words");
        for cap in (0..want.len() + 8).step_by(if i < 20 { 1 } else { 7 }) {
            let mut b = vec![0x11u8; cap];
            let mut s = &mut b[..];
            let r = guarded(|| p.build().encode(202, &mut s))?;
            let left = s.len();
            l.op(1);
            ensure!(r.is_ok() == (cap >= want.len()), "encoding {} bytes into {}: {:?}", want.len(), cap, r.is_ok());
            if r.is_ok() {
                ensure!(left == cap - want.len() && b[..want.len()] == want[..] && b[want.len()..].iter().all(|&x| x == 0x11), "bytes behind a program changed");
            }
        }
        // and all truncations
        for cut in (0..want.len()).step_by(if i < 20 { 1 } else { 7 }) {
            let mut flags = vec![false; 202];
            let r = guarded(|| ColorTransformProgram::decode(&mut &want[..cut], &mut flags))?;
            l.op(1);
            ensure!(r.is_err(), "a program of {} bytes cut at {} is accepted", want.len(), cut);
        }
        Ok(())
    });
    // numbers of steps and factors beyond 8 and 16 bits
    k.section("very-long", 13 * 3, |i, l| {
        let (steps, factors) = [(255usize, 3usize), (256, 1), (1000, 1), (4096, 0), (5000, 2), (32768, 0), (66_000, 1), (1, 255), (1, 1000), (2, 5000), (1, 70_000), (3, 33_000), (300, 300)][(i / 3) as usize];
        let n = [3usize, 250, 70_000][(i % 3) as usize];
        let p = Prog((0..steps).map(|s| st(s % n, &(0..factors).map(|f| ((s + f + 1) % n, (f % 7) as i32 - 3)).collect::<Vec<_>>(), 1 + (s % 9) as i32, s % n % 3 == 0)).collect());
        l.describe(format_args!("{} steps of {} factors for {} channels", steps, factors, n));
        both_ways(&p, n, l)
    });
    // shipped programs are what their documentation says
    k.section("shipped", 5, |i, l| {
        let (name, program, model) = Prog::shipped().swap_remove(i as usize);
        l.describe(format_args!("{}", name));
        ensure!(Prog::from_program(&program) == model, "{} is {:?}", name, Prog::from_program(&program));
        both_ways(&model, 3, l)?;
        for c in 0..3 {
            let want = model.0.iter().any(|s| s.dest == c && (s.denom > 1 || !s.factors.is_empty()));
            ensure!(program.is_channel_has_transform(c) == want, "{}: channel {} has a transform: {}", name, c, !want);
        }
        Ok(())
    });
    // number sequences of any meaning: accepted, rejected or cut short as the format says
    let len = k.pick(6, 7);
    const NUMS: [i64; 10] = [-1, 0, 1, 2, 3, -2, 32767, 32768, 65536 + 1, i32::MAX as i64];
    k.section("number-sequences", pow(10, len - 1), |i, l| {
        for first in NUMS {
            let mut r = Radix(i);
            let mut nums = vec![first];
            nums.extend((1..len).map(|_| r.of(&NUMS)));
            for channels in [1usize, 3] {
                // the zero bits that fill the last word must not be a number of the program
                for end in [&[][..], &[-1, 1, 0, -1][..]] {
                    let all: Vec<i64> = nums.iter().chain(end).copied().collect();
                    let want = parse(&all, channels as i64);
                    if want == Parsed::Short {
                        l.count("unterminated", 1);
                        continue;
                    }
                    let data = numbers(all.iter().copied());
                    let mut flags = vec![false; channels];
                    let mut s = &data[..];
                    let got = guarded(|| ColorTransformProgram::decode(&mut s, &mut flags)).map_err(|e| format!("{:?}: {}", all, e))?;
                    l.op(1);
                    l.trace(1);
                    l.state(1);
                    match (got, want) {
                        (Err(_), Parsed::Rejected) => l.count("rejected", 1),
                        (Ok(g), Parsed::Program(p)) => {
                            ensure!(Prog::from_program(&g) == p, "{:?} for {} channels decodes to {:?}", all, channels, g);
                            for (c, f) in flags.iter().enumerate() {
                                ensure!(*f == p.0.iter().any(|s| s.dest == c && s.chroma), "{:?}: chroma flags {:?}", all, flags);
                            }
                            l.outcome(hash(format!("{:?}", p).as_bytes()));
                            l.count("accepted", 1);
                        }
                        (g, w) => return Err(format!("{:?} for {} channels: {:?} instead of {:?}", all, channels, g, w)),
                    }
                }
            }
        }
        Ok(())
    });
    // every value in the place of a channel or a denominator
    k.section("field-values", 70000 + 64, |i, l| {
        let v = if i < 70000 { i as i64 - 2000 } else { [1i64 << 20, (1 << 31) - 1, -(1 << 31) + 1, 1 << 30][i as usize % 4] + (i as i64 / 4 % 16) - 16 * ((i % 4 == 1) as i64) };
        let channels = 40;
        for (what, nums) in [("destination", vec![v, -1, 1, 0, -1]), ("source", vec![0, v, 1, -1, 1, 0, -1]), ("second source", vec![0, 1, 1, v, 1, -1, 1, 0, -1]),
            ("denominator", vec![0, 1, 1, -1, v, 1, -1]), ("later denominator", vec![0, -1, 1, 0, 1, -1, v, 0, -1])] {
            let want = parse(&nums, channels);
            if want == Parsed::Short {
                continue;
            }
            let data = numbers(nums.iter().copied());
            let mut flags = vec![false; channels as usize];
            let mut s = &data[..];
            let got = guarded(|| ColorTransformProgram::decode(&mut s, &mut flags)).map_err(|e| format!("{} {}: {}", what, v, e))?;
            l.op(1);
            l.trace(1);
            match (got, want) {
                (Err(_), Parsed::Rejected) => {}
                (Ok(g), Parsed::Program(p)) if Prog::from_program(&g) == p => {}
                (g, w) => return Err(format!("{} {}: {:?} instead of {:?}", what, v, g, w)),
            }
        }
        Ok(())
    });
    // denominators the builder must refuse
    k.section("builder", 70000, |i, l| {
        let v = i as isize - 2000;
        for v in [v, v << 16, v << 32] {
            let r = guarded(|| {
                let mut b = ChannelTransformBuilder::with_dest_channel(0);
                b.set_denominator(v);
                b.build()
            });
            l.op(1);
            ensure!(r.is_ok() == (1..=32767).contains(&v), "denominator {}: {:?}", v, r);
        }
        Ok(())
    });
    k.finish()
}
