//! Input and output whose behaviour is chosen call by call: short transfers, interruptions, failures.
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// Replays a prefix of choices and takes choice 0 afterwards.
#[derive(Default)]
pub struct Choices {
    prefix: Vec<u16>,
    made: Vec<(u16, u16)>,
    pub diverged: bool,
}
impl Choices {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = self.made.len();
        let mut c = if k < self.prefix.len() { self.prefix[k] as usize } else { 0 };
        if c >= n {
            self.diverged = true;
            c = 0;
        }
        self.made.push((c as u16, n as u16));
        c
    }
}
pub type Shared = Rc<RefCell<Choices>>;

/// Runs `f` under every sequence of choices with at most `deviations` choices other than 0.
/// Stops after `cap` executions. Returns the number of executions and whether that is all of them.
pub fn explore(deviations: usize, cap: u64, mut f: impl FnMut(&Shared) -> Result<(), String>) -> Result<(u64, bool), String> {
    let mut prefix = vec![];
    let mut n = 0;
    loop {
        let s: Shared = Rc::new(RefCell::new(Choices { prefix: std::mem::take(&mut prefix), ..Choices::default() }));
        f(&s).map_err(|e| format!("{} [choices {:?}]", e, s.borrow().made))?;
        n += 1;
        let mut c = s.borrow_mut();
        if c.diverged || c.made.len() < c.prefix.len() {
            return Err(format!("not a function of the input and of the sizes of transfers: {:?}", c.prefix));
        }
        if n >= cap {
            return Ok((n, false));
        }
        let mut made = std::mem::take(&mut c.made);
        loop {
            match made.pop() {
                None => return Ok((n, true)),
                Some((c, k)) => {
                    let used = made.iter().filter(|x| x.0 != 0).count();
                    if c + 1 < k && used < deviations {
                        prefix = made.iter().map(|x| x.0).collect();
                        prefix.push(c + 1);
                        break;
                    }
                }
            }
        }
    }
}

/// What happens when a position is reached.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// nothing: there is more data or room
    None,
    /// end of data, or no more room
    End(usize),
    Error(usize, io::ErrorKind),
    /// the same, but only once: whoever tries again gets on
    Once(usize, io::ErrorKind),
}
use io::ErrorKind::*;
/// every kind, but for interruptions, which are to be repeated
pub const KINDS: [io::ErrorKind; 36] = [Other, WouldBlock, BrokenPipe, TimedOut, UnexpectedEof, WriteZero, PermissionDenied, InvalidData, NotFound,
    ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
    NetworkDown, AlreadyExists, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput,
    StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong,
    Unsupported, OutOfMemory];

/// Calls transfer what `step` says.
#[derive(Clone)]
pub enum Pace {
    /// everything asked for
    All,
    /// at most so many bytes per call
    Max(usize),
    /// at most so many, and every other call is interrupted
    Interrupted(usize),
    /// by choice: all, less, or interrupted
    Chosen(Shared),
}

pub struct Pipe<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub written: Vec<u8>,
    pub fault: Fault,
    pub pace: Pace,
    pub calls: usize,
    failed: bool,
}
impl<'a> Pipe<'a> {
    pub fn reader(data: &'a [u8], fault: Fault, pace: Pace) -> Self {
        Pipe { data, pos: 0, written: vec![], fault, pace, calls: 0, failed: false }
    }
    pub fn writer(fault: Fault, pace: Pace) -> Self {
        Pipe { data: &[], pos: 0, written: vec![], fault, pace, calls: 0, failed: false }
    }
    /// how much of `want` bytes at position `at` is transferred
    fn step(&mut self, want: usize, at: usize) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 10_000_000, "endless transfers");
        if want == 0 {
            return Ok(0);
        }
        let interrupted = || Err(io::Error::from(io::ErrorKind::Interrupted));
        let n = match &self.pace {
            Pace::All => want,
            Pace::Max(n) => want.min(*n),
            Pace::Interrupted(n) => {
                if self.calls & 1 == 1 {
                    return interrupted();
                }
                want.min(*n)
            }
            Pace::Chosen(s) => match s.borrow_mut().choose(want + 1) {
                c if c == want => return interrupted(),
                c => want - c,
            },
        };
        match self.fault {
            Fault::None => Ok(n),
            Fault::End(p) => Ok(n.min(p - at)),
            Fault::Once(..) if self.failed => Ok(n),
            Fault::Once(p, k) => if at == p {
                self.failed = true;
                Err(io::Error::from(k))
            } else { Ok(n.min(p - at)) },
            Fault::Error(p, k) => if at == p { Err(io::Error::from(k)) } else { Ok(n.min(p - at)) },
        }
    }
}
impl io::Read for Pipe<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = self.step(buf.len().min(left), self.pos)?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::Write for Pipe<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len(), self.written.len())?;
        self.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
