//! Child processes of a run: library code that must start from the state of a fresh process runs in a
//! fork of a worker that never runs library code itself.
use std::ffi::c_void;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut c_void, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, flags: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, ...) -> i32;
    fn getppid() -> i32;
    fn getpid() -> i32;
}

/// End this process at once.
pub fn quit(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// Run `f` in a forked child and return the bytes it produced, or how the child died.
pub fn in_child(f: impl FnOnce() -> Pack) -> Result<Unpack, String> {
    unsafe {
        let me = getpid();
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("no pipe (src/proc.rs)");
        }
        let pid = fork();
        if pid < 0 {
            panic!("no fork (src/proc.rs)");
        }
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9u64); // die with the parent
            if getppid() != me {
                _exit(9);
            }
            let out = crate::vm::guard(f);
            let (code, data) = match out {
                Ok(p) => (0, p.0),
                Err(m) => (7, m.into_bytes()),
            };
            let mut at = 0;
            while at < data.len() {
                let n = crate::seams::write(fds[1], data[at..].as_ptr() as *const c_void, data.len() - at);
                if n <= 0 {
                    _exit(8);
                }
                at += n as usize;
            }
            _exit(code);
        }
        close(fds[1]);
        let mut data = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr() as *mut c_void, buf.len());
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(4) {
                continue;
            }
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(4) {}
        match (st & 0x7f, (st >> 8) & 0xff) {
            (0, 0) => Ok(Unpack(data, 0)),
            (0, 7) => Err(format!("panic: {}", String::from_utf8_lossy(&data))),
            (0, c) => Err(format!("exit status {c}")),
            (s, _) => Err(format!("signal {s}")),
        }
    }
}

#[derive(Default)]
pub struct Pack(pub Vec<u8>);

impl Pack {
    pub fn num(&mut self, x: u64) -> &mut Self {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        self.num(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn nums(&mut self, v: &[u64]) -> &mut Self {
        self.num(v.len() as u64);
        for x in v {
            self.num(*x);
        }
        self
    }
}

pub struct Unpack(pub Vec<u8>, usize);

impl Unpack {
    pub fn num(&mut self) -> u64 {
        let b = self.0[self.1..self.1 + 8].try_into().unwrap();
        self.1 += 8;
        u64::from_le_bytes(b)
    }
    pub fn str(&mut self) -> String {
        let n = self.num() as usize;
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + n]).into_owned();
        self.1 += n;
        s
    }
    pub fn nums(&mut self) -> Vec<u64> {
        (0..self.num()).map(|_| self.num()).collect()
    }
}
