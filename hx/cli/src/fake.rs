//! `std`, with input, output and the end of the process in the harness's hands.
pub use ::std::*;
use ::std::sync::Mutex;

/// What happens around the program.
pub struct World {
    /// Bytes that can be read, the most that one call gives, and whether an error comes after them
    /// (instead of the end) and an interruption before.
    pub input: Vec<u8>,
    pub chunk: usize,
    pub broken: bool,
    pub interrupted: bool,
    /// How much can be written, and the most that one call takes.
    pub room: usize,
    pub piece: usize,
    pub read: usize,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub code: Option<i32>,
}
impl World {
    pub const fn new() -> Self {
        World { input: Vec::new(), chunk: usize::MAX, broken: false, interrupted: false, room: usize::MAX, piece: usize::MAX, read: 0, out: Vec::new(), err: Vec::new(), code: None }
    }
}
pub static WORLD: Mutex<World> = Mutex::new(World::new());
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    f(&mut WORLD.lock().unwrap())
}

pub mod io {
    use super::{world, Mutex};
    pub use ::std::io::*;

    pub struct RawIn;
    impl Read for RawIn {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            world(|w| {
                if w.interrupted {
                    w.interrupted = false;
                    return Err(ErrorKind::Interrupted.into());
                }
                let n = b.len().min(w.chunk).min(w.input.len() - w.read);
                if n == 0 && w.broken && !b.is_empty() {
                    return Err(ErrorKind::PermissionDenied.into());
                }
                b[..n].copy_from_slice(&w.input[w.read..w.read + n]);
                w.read += n;
                Ok(n)
            })
        }
    }
    pub struct RawOut;
    impl Write for RawOut {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            world(|w| {
                let n = b.len().min(w.piece).min(w.room - w.out.len());
                if n == 0 && !b.is_empty() {
                    return Err(ErrorKind::StorageFull.into());
                }
                w.out.extend_from_slice(&b[..n]);
                Ok(n)
            })
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    pub static IN: Mutex<Option<BufReader<RawIn>>> = Mutex::new(None);
    pub static OUT: Mutex<Option<LineWriter<RawOut>>> = Mutex::new(None);
    fn input<R>(f: impl FnOnce(&mut BufReader<RawIn>) -> R) -> R {
        f(IN.lock().unwrap().get_or_insert_with(|| BufReader::with_capacity(64, RawIn)))
    }
    fn output<R>(f: impl FnOnce(&mut LineWriter<RawOut>) -> R) -> R {
        f(OUT.lock().unwrap().get_or_insert_with(|| LineWriter::new(RawOut)))
    }
    /// What is left in the buffer when the process ends is written, and nobody hears of errors.
    pub fn close() {
        let w = OUT.lock().unwrap().take();
        drop(w);
        IN.lock().unwrap().take();
    }

    #[derive(Debug)]
    pub struct Stdin;
    pub struct StdinLock {
        here: Vec<u8>,
        at: usize,
    }
    pub fn stdin() -> Stdin {
        Stdin
    }
    impl Stdin {
        pub fn lock(&self) -> StdinLock {
            StdinLock { here: Vec::new(), at: 0 }
        }
        pub fn read_line(&self, s: &mut String) -> Result<usize> {
            input(|i| i.read_line(s))
        }
        pub fn lines(self) -> Lines<StdinLock> {
            self.lock().lines()
        }
    }
    impl Read for Stdin {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            input(|i| i.read(b))
        }
        fn read_to_string(&mut self, s: &mut String) -> Result<usize> {
            input(|i| i.read_to_string(s))
        }
        fn read_to_end(&mut self, s: &mut Vec<u8>) -> Result<usize> {
            input(|i| i.read_to_end(s))
        }
    }
    impl Read for &Stdin {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            input(|i| i.read(b))
        }
    }
    impl Read for StdinLock {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            if self.at < self.here.len() {
                let n = b.len().min(self.here.len() - self.at);
                b[..n].copy_from_slice(&self.here[self.at..self.at + n]);
                self.at += n;
                return Ok(n);
            }
            input(|i| i.read(b))
        }
    }
    impl BufRead for StdinLock {
        fn fill_buf(&mut self) -> Result<&[u8]> {
            if self.at == self.here.len() {
                let mut b = [0; 64];
                let n = input(|i| i.read(&mut b))?;
                self.here = b[..n].to_vec();
                self.at = 0;
            }
            Ok(&self.here[self.at..])
        }
        fn consume(&mut self, n: usize) {
            self.at += n;
        }
    }

    #[derive(Debug)]
    pub struct Stdout;
    pub type StdoutLock = Stdout;
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            output(|o| o.write(b))
        }
        fn flush(&mut self) -> Result<()> {
            output(|o| o.flush())
        }
    }
    impl Write for &Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            output(|o| o.write(b))
        }
        fn flush(&mut self) -> Result<()> {
            output(|o| o.flush())
        }
    }
    #[derive(Debug)]
    pub struct Stderr;
    pub type StderrLock = Stderr;
    pub fn stderr() -> Stderr {
        Stderr
    }
    impl Stderr {
        pub fn lock(&self) -> Stderr {
            Stderr
        }
    }
    impl Write for Stderr {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            world(|w| w.err.extend_from_slice(b));
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    pub fn read_to_string<R: Read>(mut r: R) -> Result<String> {
        let mut s = String::new();
        r.read_to_string(&mut s)?;
        Ok(s)
    }
}

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        super::ended(code);
        #[cfg(target_arch = "riscv64")]
        {
            crate::judge();
            sym::done()
        }
        #[cfg(not(target_arch = "riscv64"))]
        loop {
            // The harness's thread goes on.
            ::std::thread::park();
        }
    }
}
/// The process has ended.
pub fn ended(code: i32) {
    io::close();
    world(|w| w.code = Some(code));
}

/// What `main` may return.
pub trait Outcome {
    fn status(self) -> i32;
}
impl Outcome for () {
    fn status(self) -> i32 {
        0
    }
}
impl Outcome for process::ExitCode {
    fn status(self) -> i32 {
        if self == process::ExitCode::SUCCESS {
            0
        } else {
            1
        }
    }
}
impl<T: Outcome, E: fmt::Debug> Outcome for Result<T, E> {
    fn status(self) -> i32 {
        match self {
            Ok(t) => t.status(),
            Err(e) => {
                world(|w| w.err.extend_from_slice(format!("Error: {:?}\n", e).as_bytes()));
                1
            }
        }
    }
}
