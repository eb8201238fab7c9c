//! The frozen C++ reference implementation.
use std::os::raw::{c_int, c_long};

extern "C" {
    fn ref_compress(img: *const u8, w: c_int, h: c_int, layers: c_int, channels: c_int, q: c_int, chroma: c_int,
        block: c_int, filter: c_int, enc: c_int, intent: c_int, program: *const c_int, out: *mut u8, size: usize) -> usize;
    fn reft_compress(img: *const u8, w: c_int, h: c_int, layers: c_int, channels: c_int, q: c_int, chroma: c_int,
        block: c_int, filter: c_int, enc: c_int, intent: c_int, program: *const c_int, out: *mut u8, size: usize) -> usize;
    fn ref_decompress(data: *const u8, size: usize, ds: c_int, test: c_int, out: *mut u8) -> isize;
    fn reft_decompress(data: *const u8, size: usize, ds: c_int, test: c_int, out: *mut u8) -> isize;
    fn ref_lift(d: *mut i16, w: c_int, h: c_int, filter: c_int);
    fn ref_unlift(d: *mut i16, w: c_int, h: c_int, filter: c_int);
    fn ref_unlift_fits(d: *const i16, w: c_int, h: c_int, filter: c_int) -> c_int;
    fn ref_quantize(d: *mut i16, w: c_int, h: c_int, q: c_int, minq: c_int, maxq: c_int);
    fn ref_dequantize(d: *mut i16, w: c_int, h: c_int, q: c_int, minq: c_int, maxq: c_int);
    fn ref_encode_block(d: *mut i16, w: c_int, h: c_int, x0: c_int, y0: c_int, x1: c_int, y1: c_int, step: c_int,
        scheme: c_int, q: c_int, dc: c_int, chroma: c_int, out: *mut u32, words: c_long) -> c_long;
    fn ref_golomb(kind: c_int, x: u32, pot: c_int, out: *mut u32, words: c_long) -> c_long;
    fn ref_cubic(c0: c_int, c1: c_int, c2: c_int, c3: c_int) -> c_int;
}

fn prog_ints(program: Option<&[i32]>) -> *const c_int {
    program.map_or(std::ptr::null(), |p| {
        assert_eq!(*p.last().unwrap(), -1);
        p.as_ptr()
    })
}

/// `exact`: the unmodified reference; otherwise denominators 2, 4, 8 divide toward zero.
pub fn compress(img: &[u8], c: &crate::codec::Cfg, program: Option<&[i32]>, exact: bool, out: &mut [u32]) -> usize {
    assert_eq!(img.len(), c.pixels());
    let f = if exact { ref_compress } else { reft_compress };
    let n = unsafe {
        f(img.as_ptr(), c.w as c_int, c.h as c_int, c.layers as c_int, c.channels as c_int, c.q as c_int,
            c.chroma as c_int, c.block as c_int, c.filter as c_int, c.enc as c_int, c.intent as c_int,
            prog_ints(program), out.as_mut_ptr() as *mut u8, out.len() * 4)
    };
    assert!(n > 0, "reference failed to compress {:?}", c);
    n
}

/// `stream` is the whole stream including the header, word aligned.
pub fn decompress(stream: &[u32], bytes: usize, ds: usize, test: bool, exact: bool, out: &mut [u8]) -> isize {
    let f = if exact { ref_decompress } else { reft_decompress };
    unsafe { f(stream.as_ptr() as *const u8, bytes, ds as c_int, test as c_int, out.as_mut_ptr()) }
}

pub fn lift(d: &mut [i16], w: usize, h: usize, filter: u8) {
    assert_eq!(d.len(), w * h);
    unsafe { ref_lift(d.as_mut_ptr(), w as c_int, h as c_int, filter as c_int) }
}
/// whether unlifting these coefficients stays within 16 bits
pub fn unlift_fits(d: &[i16], w: usize, h: usize, filter: u8) -> bool {
    assert_eq!(d.len(), w * h);
    unsafe { ref_unlift_fits(d.as_ptr(), w as c_int, h as c_int, filter as c_int) == 1 }
}
pub fn unlift(d: &mut [i16], w: usize, h: usize, filter: u8) {
    assert_eq!(d.len(), w * h);
    unsafe { ref_unlift(d.as_mut_ptr(), w as c_int, h as c_int, filter as c_int) }
}
pub fn quantize(d: &mut [i16], w: usize, h: usize, q: i32, minq: i32, maxq: i32) {
    assert_eq!(d.len(), w * h);
    unsafe { ref_quantize(d.as_mut_ptr(), w as c_int, h as c_int, q, minq, maxq) }
}
pub fn dequantize(d: &mut [i16], w: usize, h: usize, q: i32, minq: i32, maxq: i32) {
    assert_eq!(d.len(), w * h);
    unsafe { ref_dequantize(d.as_mut_ptr(), w as c_int, h as c_int, q, minq, maxq) }
}
#[allow(clippy::too_many_arguments)]
pub fn encode_block(d: &mut [i16], w: usize, h: usize, x: (usize, usize), y: (usize, usize), step: usize, scheme: u8,
    q: i32, dc: bool, chroma: bool, out: &mut [u32]) -> usize {
    assert_eq!(d.len(), w * h);
    let n = unsafe {
        ref_encode_block(d.as_mut_ptr(), w as c_int, h as c_int, x.0 as c_int, y.0 as c_int, x.1 as c_int, y.1 as c_int,
            step as c_int, scheme as c_int, q, dc as c_int, chroma as c_int, out.as_mut_ptr(), out.len() as c_long)
    };
    assert!(n >= 0, "reference block overflow");
    n as usize
}
pub fn golomb(kind: u8, x: u32, pot: u32, out: &mut [u32]) -> usize {
    let n = unsafe { ref_golomb(kind as c_int, x, pot as c_int, out.as_mut_ptr(), out.len() as c_long) };
    assert!(n >= 0);
    n as usize
}
pub fn cubic(c0: i32, c1: i32, c2: i32, c3: i32) -> i32 {
    unsafe { ref_cubic(c0, c1, c2, c3) }
}
