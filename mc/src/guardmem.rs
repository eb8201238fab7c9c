//! Buffers between inaccessible pages: an access in front of or behind them ends the process with a signal (which the
//! framework reports with the case).
use std::cell::RefCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const GUARD: usize = 1 << 24;
const ROOM: usize = 1 << 20;

/// which end of the buffer touches the inaccessible memory
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Side {
    Front,
    Back,
}
pub const SIDES: [Side; 2] = [Side::Back, Side::Front];

struct Area {
    base: *mut u8,
    used: bool,
}
thread_local! {
    static AREAS: RefCell<Vec<Area>> = const { RefCell::new(Vec::new()) };
}

/// A buffer of `len` samples between guards; what is left of its pages must not change either.
pub struct Guarded<T: Copy + PartialEq + Default + 'static> {
    area: usize,
    room: *mut u8,
    ptr: *mut T,
    len: usize,
    bytes: usize,
}
const CANARY: u8 = 0xE7;

impl<T: Copy + PartialEq + Default + 'static> Guarded<T> {
    pub fn new(len: usize, side: Side, init: impl Fn(usize) -> T) -> Guarded<T> {
        let bytes = len * std::mem::size_of::<T>();
        assert!(bytes <= ROOM);
        let (area, room) = AREAS.with(|a| {
            let mut a = a.borrow_mut();
            let i = match a.iter().position(|x| !x.used) {
                Some(i) => i,
                None => {
                    let base = unsafe {
                        // private, anonymous, without reservation
                        let p = mmap(std::ptr::null_mut(), 2 * GUARD + ROOM, 0, 0x2 | 0x20 | 0x4000, -1, 0);
                        assert!(p as isize != -1 && mprotect(p.add(GUARD), ROOM, 3) == 0);
                        p
                    };
                    a.push(Area { base, used: false });
                    a.len() - 1
                }
            };
            a[i].used = true;
            (i, unsafe { a[i].base.add(GUARD) })
        });
        let ptr = unsafe {
            match side {
                Side::Front => room,
                Side::Back => room.add(ROOM - bytes),
            }
        } as *mut T;
        let mut g = Guarded { area, room, ptr, len, bytes };
        let (slack, n) = g.slack();
        unsafe { std::ptr::write_bytes(slack, CANARY, n) };
        for (i, x) in g.get().iter_mut().enumerate() {
            *x = init(i);
        }
        g
    }
    /// accessible memory next to the buffer, up to a page
    fn slack(&self) -> (*mut u8, usize) {
        let n = (ROOM - self.bytes).min(4096);
        unsafe {
            if self.ptr as *mut u8 == self.room && self.bytes < ROOM {
                (self.room.add(self.bytes), n)
            } else {
                ((self.ptr as *mut u8).sub(n), n)
            }
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    /// nothing was written next to the buffer
    pub fn intact(&self) -> bool {
        let (p, n) = self.slack();
        unsafe { std::slice::from_raw_parts(p, n) }.iter().all(|&b| b == CANARY)
    }
}
impl<T: Copy + PartialEq + Default + 'static> Drop for Guarded<T> {
    fn drop(&mut self) {
        AREAS.with(|a| a.borrow_mut()[self.area].used = false);
    }
}
