//! The environment of the code under test: files with given content and TCP peers that follow a
//! script. wasm64: answered by in-memory models (through the patched std). Native: real temporary
//! files and real loopback sockets; `send`/`recv`/`setsockopt`/`connect` are interposed only to
//! record, to split transfers and to inject errors.
use std::fs::File;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Eof,
    WouldBlock,
    Reset,
}
#[derive(Clone)]
pub struct Script {
    pub data: Vec<u8>,
    pub end: End,
    /// cyclic list of maximal read sizes (0 = unlimited, -1 = interrupted call)
    pub rchunk: Vec<i32>,
    /// cyclic list of maximal write sizes
    pub wchunk: Vec<i32>,
    /// (offset, n): the server sends what follows `offset` only after it has received n bytes
    pub gates: Vec<(usize, usize)>,
    /// offsets that no read, respectively no write, crosses
    pub cuts: Vec<usize>,
    pub wcuts: Vec<usize>,
    /// the call after a cut is interrupted
    pub interrupt: bool,
}
impl Script {
    pub fn new(data: Vec<u8>) -> Self {
        Script { data, end: End::Eof, rchunk: vec![], wchunk: vec![], gates: vec![], cuts: vec![], wcuts: vec![], interrupt: false }
    }
}
#[derive(Clone, Default, Debug)]
pub struct Seen {
    pub ip: u32,
    pub port: u16,
    pub sent: Vec<u8>,
    pub consumed: usize,
    /// read timeout in microseconds; None = blocks for ever
    pub read_timeout: Option<u64>,
    pub set_timeouts: u32,
    /// read timeouts in force at the reads, without repetitions
    pub timeouts: Vec<Option<u64>>,
    pub closed: bool,
    /// (sent, consumed) at each write that follows a read
    pub marks: Vec<(usize, usize)>,
    nr: usize,
    nw: usize,
    ni: usize,
    nj: usize,
}
pub struct Net {
    pub scripts: Vec<Script>,
    pub conns: Vec<Seen>,
    pub port: u16,
    pub refused: u32,
}
pub static NET: Mutex<Net> = Mutex::new(Net { scripts: vec![], conns: vec![], port: 0, refused: 0 });

pub fn seen() -> Vec<Seen> {
    NET.lock().unwrap().conns.clone()
}
/// number of bytes of connection `i` the client has read so far
pub fn consumed(i: usize) -> usize {
    NET.lock().unwrap().conns[i].consumed
}

fn micros(s: u64, n: u32) -> Option<u64> {
    if s == u64::MAX {
        None
    } else {
        Some(s.saturating_mul(1_000_000).saturating_add((n / 1000) as u64))
    }
}
impl Net {
    fn timeout(&mut self, c: usize, kind: u32, us: Option<u64>) {
        if kind == 0 {
            self.conns[c].read_timeout = us;
            self.conns[c].set_timeouts += 1;
        }
    }
    /// size of the next write of at most `len` bytes, or -4
    fn wsize(&mut self, c: usize, len: usize) -> i64 {
        let m = (self.conns[c].sent.len(), self.conns[c].consumed);
        if self.conns[c].marks.last().map(|x| x.1) != Some(m.1) {
            self.conns[c].marks.push(m);
        }
        let w = &self.scripts[c].wchunk;
        let k = if w.is_empty() { 0 } else { w[self.conns[c].nw % w.len()] };
        self.conns[c].nw += 1;
        let mut len = len;
        if self.scripts[c].interrupt && self.scripts[c].wcuts.get(self.conns[c].nj) == Some(&m.0) {
            self.conns[c].nj += 1;
            return -4;
        }
        for w in &self.scripts[c].wcuts {
            if *w > m.0 {
                len = len.min(*w - m.0);
            }
        }
        match k {
            0 => len as i64,
            k if k < 0 => -4,
            k => len.min(k as usize) as i64,
        }
    }
    /// size of the next read of at most `len` bytes, 0 at the end, or an error
    fn rsize(&mut self, c: usize, len: usize) -> i64 {
        let (sent, done) = (self.conns[c].sent.len(), self.conns[c].consumed);
        let t = self.conns[c].read_timeout;
        if self.conns[c].timeouts.last() != Some(&t) {
            self.conns[c].timeouts.push(t);
        }
        let mut end = self.scripts[c].data.len();
        let mut waits = false;
        for g in &self.scripts[c].gates {
            if g.0 < end && sent < g.1 {
                end = g.0;
                waits = true;
            }
        }
        let mut left = end.saturating_sub(done);
        if self.scripts[c].interrupt && self.scripts[c].cuts.get(self.conns[c].ni) == Some(&done) {
            self.conns[c].ni += 1;
            return -4;
        }
        for w in &self.scripts[c].cuts {
            if *w > done {
                left = left.min(*w - done);
            }
        }
        if len == 0 {
            return 0;
        }
        let w = &self.scripts[c].rchunk;
        let k = if w.is_empty() { 0 } else { w[self.conns[c].nr % w.len()] };
        self.conns[c].nr += 1;
        if k < 0 {
            return -4;
        }
        if left == 0 && waits {
            return -1; // the read timeout passes
        }
        if left == 0 {
            return match self.scripts[c].end {
                End::Eof => 0,
                End::WouldBlock => -1,
                End::Reset => -2,
            };
        }
        let n = len.min(left);
        (if k > 0 { n.min(k as usize) } else { n }) as i64
    }
}

#[cfg(target_arch = "wasm64")]
mod imp {
    use super::*;
    static FILES: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    static OPEN: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);

    pub fn file(content: Vec<u8>) -> File {
        let mut f = FILES.lock().unwrap();
        f.push(content);
        let p = String::from_utf8(vec![b'/', b'v', b'0' + (f.len() - 1) as u8]).unwrap();
        drop(f);
        File::open(p).unwrap()
    }
    #[no_mangle]
    extern "C" fn vpfs_open(p: *const u8, n: usize) -> i64 {
        let i = unsafe { *p.add(n - 1) - b'0' } as usize;
        if i >= FILES.lock().unwrap().len() {
            return -1;
        }
        let mut o = OPEN.lock().unwrap();
        o.push((i, 0));
        o.len() as i64 - 1
    }
    #[no_mangle]
    extern "C" fn vpfs_read(fd: u32, buf: *mut u8, len: usize) -> i64 {
        let mut o = OPEN.lock().unwrap();
        let (i, pos) = o[fd as usize];
        let f = FILES.lock().unwrap();
        let left = (f[i].len() as u64).saturating_sub(pos) as usize;
        let n = len.min(left);
        if n > 0 {
            unsafe { std::ptr::copy_nonoverlapping(f[i].as_ptr().add(pos as usize), buf, n) };
        }
        o[fd as usize].1 = pos + n as u64;
        n as i64
    }
    #[no_mangle]
    extern "C" fn vpfs_seek(fd: u32, whence: u32, off: i64) -> i64 {
        let mut o = OPEN.lock().unwrap();
        let (i, pos) = o[fd as usize];
        let base = match whence {
            0 => 0,
            1 => pos as i64,
            _ => FILES.lock().unwrap()[i].len() as i64,
        };
        let p = base.wrapping_add(off);
        if p < 0 {
            return -22;
        }
        o[fd as usize].1 = p as u64;
        p
    }
    #[no_mangle]
    extern "C" fn vpfs_size(fd: u32) -> u64 {
        let i = OPEN.lock().unwrap()[fd as usize].0;
        FILES.lock().unwrap()[i].len() as u64
    }
    #[no_mangle]
    extern "C" fn vpfs_close(_fd: u32) {}

    pub fn serve(scripts: Vec<Script>) -> u16 {
        let mut n = NET.lock().unwrap();
        n.scripts = scripts;
        n.conns.clear();
        n.port = 33060;
        n.port
    }
    #[no_mangle]
    extern "C" fn vpnet_connect(ip: u32, port: u32) -> i64 {
        let mut n = NET.lock().unwrap();
        if n.conns.len() >= n.scripts.len() || port != n.port as u32 {
            n.refused += 1;
            return -3;
        }
        n.conns.push(Seen { ip, port: port as u16, ..Default::default() });
        n.conns.len() as i64 - 1
    }
    #[no_mangle]
    extern "C" fn vpnet_read(fd: u32, buf: *mut u8, len: usize) -> i64 {
        let mut n = NET.lock().unwrap();
        let c = fd as usize;
        let k = n.rsize(c, len);
        if k > 0 {
            let p = n.conns[c].consumed;
            unsafe { std::ptr::copy_nonoverlapping(n.scripts[c].data.as_ptr().add(p), buf, k as usize) };
            n.conns[c].consumed += k as usize;
        }
        k
    }
    #[no_mangle]
    extern "C" fn vpnet_write(fd: u32, buf: *const u8, len: usize) -> i64 {
        let mut n = NET.lock().unwrap();
        let c = fd as usize;
        let k = n.wsize(c, len);
        if k > 0 {
            let b = unsafe { std::slice::from_raw_parts(buf, k as usize) };
            n.conns[c].sent.extend_from_slice(b);
        }
        k
    }
    #[no_mangle]
    extern "C" fn vpnet_timeout(fd: u32, kind: u32, secs: u64, nanos: u32) {
        NET.lock().unwrap().timeout(fd as usize, kind, micros(secs, nanos));
    }
    #[no_mangle]
    extern "C" fn vpnet_close(fd: u32) {
        NET.lock().unwrap().conns[fd as usize].closed = true;
    }
}

#[cfg(not(target_arch = "wasm64"))]
mod imp {
    use super::*;
    use std::ffi::{c_int, c_long, c_void};
    use std::io::{Read, Write};
    use std::net::TcpListener;
    use std::sync::atomic::{AtomicU32, Ordering};

    pub fn file(content: Vec<u8>) -> File {
        static N: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir().join(format!("vpreplay.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::write(&p, content).unwrap();
        let f = File::open(&p).unwrap();
        std::fs::remove_file(&p).unwrap();
        f
    }

    // client sockets: fd -> connection number
    static MAP: Mutex<Vec<(c_int, usize)>> = Mutex::new(vec![]);
    fn conn_of(fd: c_int) -> Option<usize> {
        MAP.lock().unwrap().iter().find(|x| x.0 == fd).map(|x| x.1)
    }
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    fn fail(e: c_int) -> isize {
        unsafe { *__errno_location() = e };
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn connect(fd: c_int, a: *const c_void, l: u32) -> c_int {
        let r = syscall(42, fd, a, l) as c_int;
        let b = a as *const u8;
        if *(a as *const u16) == 2 {
            let port = u16::from_be_bytes([*b.add(2), *b.add(3)]);
            let ip = u32::from_be_bytes([*b.add(4), *b.add(5), *b.add(6), *b.add(7)]);
            let mut n = NET.lock().unwrap();
            if port == n.port && (r == 0 || *__errno_location() == 115) {
                n.conns.push(Seen { ip, port, ..Default::default() });
                MAP.lock().unwrap().push((fd, n.conns.len() - 1));
            }
        }
        r
    }
    #[no_mangle]
    unsafe extern "C" fn close(fd: c_int) -> c_int {
        if let Some(c) = conn_of(fd) {
            MAP.lock().unwrap().retain(|x| x.0 != fd);
            NET.lock().unwrap().conns[c].closed = true;
        }
        syscall(3, fd) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: u32) -> c_int {
        if let Some(c) = conn_of(fd) {
            if level == 1 && (name == 20 || name == 21) && l == 16 {
                let t = v as *const i64;
                let us = if *t == 0 && *t.add(1) == 0 { None } else { micros(*t as u64, *t.add(1) as u32 * 1000) };
                NET.lock().unwrap().timeout(c, (name == 21) as u32, us);
                return 0;
            }
        }
        syscall(54, fd, level, name, v, l) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn send(fd: c_int, b: *const c_void, l: usize, f: c_int) -> isize {
        let c = match conn_of(fd) {
            Some(c) => c,
            None => return syscall(44, fd, b, l, f, 0, 0) as isize,
        };
        let k = NET.lock().unwrap().wsize(c, l);
        if k < 0 {
            return fail(4);
        }
        let r = syscall(44, fd, b, k as usize, f, 0, 0) as isize;
        if r > 0 {
            let s = std::slice::from_raw_parts(b as *const u8, r as usize);
            NET.lock().unwrap().conns[c].sent.extend_from_slice(s);
        }
        r
    }
    #[no_mangle]
    unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, l: usize, f: c_int) -> isize {
        let c = match conn_of(fd) {
            Some(c) => c,
            None => return syscall(45, fd, b, l, f, 0, 0) as isize,
        };
        let k = NET.lock().unwrap().rsize(c, l);
        if k < 0 {
            return fail([0, 11, 104, 111, 4][-k as usize]);
        }
        // wait for the k bytes the server has already been told to send
        let r = syscall(45, fd, b, if k == 0 { l } else { k as usize }, if k > 0 { f | 0x100 } else { f }, 0, 0) as isize;
        if r > 0 {
            NET.lock().unwrap().conns[c].consumed += r as usize;
        }
        r
    }

    #[repr(C)]
    struct Iov {
        base: *mut c_void,
        len: usize,
    }
    unsafe fn first(v: *const Iov, n: c_int) -> (*mut c_void, usize) {
        let v = std::slice::from_raw_parts(v, n as usize);
        v.iter().find(|x| x.len > 0).map(|x| (x.base, x.len)).unwrap_or((std::ptr::NonNull::dangling().as_ptr(), 0))
    }
    #[no_mangle]
    unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
        if conn_of(fd).is_none() {
            return syscall(20, fd, v, n) as isize;
        }
        let (b, l) = first(v as *const Iov, n);
        send(fd, b, l, 0x4000)
    }
    #[no_mangle]
    unsafe extern "C" fn readv(fd: c_int, v: *const c_void, n: c_int) -> isize {
        if conn_of(fd).is_none() {
            return syscall(19, fd, v, n) as isize;
        }
        let (b, l) = first(v as *const Iov, n);
        recv(fd, b, l, 0)
    }
    #[no_mangle]
    unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
        let r = syscall(72, fd, cmd, arg) as c_int;
        if let (Some(c), true) = (conn_of(fd), (cmd == 0 || cmd == 1030) && r >= 0) {
            MAP.lock().unwrap().push((r, c));
        }
        r
    }

    pub fn serve(scripts: Vec<Script>) -> u16 {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        {
            let mut n = NET.lock().unwrap();
            n.scripts = scripts.clone();
            n.conns.clear();
            n.port = port;
        }
        MAP.lock().unwrap().clear();
        std::thread::spawn(move || {
            for s in scripts {
                let mut c = match l.accept() {
                    Ok(x) => x.0,
                    Err(_) => return,
                };
                std::thread::spawn(move || {
                    let _ = c.write_all(&s.data);
                    let _ = c.shutdown(std::net::Shutdown::Write);
                    let mut b = [0u8; 4096];
                    while let Ok(n) = c.read(&mut b) {
                        if n == 0 {
                            break;
                        }
                    }
                });
            }
        });
        port
    }
}
pub use imp::*;
