#!/usr/bin/env python3
"""Copies the toolchain's std source and replaces the unsupported-platform stubs
(File, TcpStream, host lookup, hash finish, UTF-8 validation) by calls into the harness.
usage: mkstd.py OUTDIR"""
import os, re, shutil, subprocess, sys

out = sys.argv[1]
sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
lib = os.path.join(sysroot, "lib/rustlib/src/rust/library")
dst = os.path.join(out, "library")
shutil.rmtree(dst, ignore_errors=True)
os.makedirs(out, exist_ok=True)
shutil.copytree(lib, dst, symlinks=True, ignore=lambda d, n: ["vendor"] if d == lib else [])
os.symlink(os.path.join(lib, "vendor"), os.path.join(dst, "vendor"))

def edit(rel, *subs):
    p = os.path.join(dst, rel)
    s = open(p).read()
    for a, b in subs:
        if a not in s:
            sys.exit(f"mkstd: pattern not found in {rel}: {a!r}")
        s = s.replace(a, b, 1)
    open(p, "w").write(s)

# ---- File ----
p = os.path.join(dst, "std/src/sys/fs/unsupported.rs")
s = open(p).read()
s = s.replace("pub struct File(!);", """pub struct File(u32);

unsafe extern "C" {
    fn vpfs_open(path: *const u8, len: usize) -> i64;
    fn vpfs_read(fd: u32, buf: *mut u8, len: usize) -> i64;
    fn vpfs_seek(fd: u32, whence: u32, off: i64) -> i64;
    fn vpfs_size(fd: u32) -> u64;
    fn vpfs_close(fd: u32);
}
fn vp_err(r: i64) -> io::Error {
    match r {
        -1 => io::Error::from(io::ErrorKind::NotFound),
        -4 => io::Error::from(io::ErrorKind::Interrupted),
        _ => io::Error::from(io::ErrorKind::Other),
    }
}""", 1)
s = s.replace("pub struct FileAttr(!);", "pub struct FileAttr(u64);", 1)
s = s.replace("""impl Drop for File {
    fn drop(&mut self) {
        self.0
    }
}""", """impl Drop for File {
    fn drop(&mut self) {
        unsafe { vpfs_close(self.0) }
    }
}""", 1)
a = s.index("impl FileAttr {"); b = s.index("impl FilePermissions")
blk = s[a:b]
blk = blk.replace("self.0", "panic!(\"vp: unsupported\")")
blk = blk.replace("pub fn size(&self) -> u64 {\n        panic!(\"vp: unsupported\")", "pub fn size(&self) -> u64 {\n        self.0")
s = s[:a] + blk + s[b:]
a = s.index("impl File {"); b = s.index("impl DirBuilder {")
blk = re.sub(r"(TryLockError> \{\n        )self\.0", r"\1panic!()", s[a:b]).replace("self.0", "unsupported()")
def body(sig, code):
    global blk
    m = re.search(re.escape(sig) + r"[^{]*\{\n        unsupported\(\)\n    \}", blk)
    if not m: sys.exit("mkstd: " + sig)
    h = m.group(0)
    blk = blk.replace(h, h[:h.index("{")].replace("_bufs", "bufs").replace("_buf:", "buf:").replace("_cursor", "mut cursor").replace("_pos", "pos").replace("_path", "path") + "{\n" + code + "\n    }", 1)
body("pub fn open(", """        let p = path.as_os_str().as_encoded_bytes();
        let r = unsafe { vpfs_open(p.as_ptr(), p.len()) };
        if r < 0 { Err(vp_err(r)) } else { Ok(File(r as u32)) }""")
body("pub fn file_attr(", "        Ok(FileAttr(unsafe { vpfs_size(self.0) }))")
body("pub fn read(", """        let r = unsafe { vpfs_read(self.0, buf.as_mut_ptr(), buf.len()) };
        if r < 0 { Err(vp_err(r)) } else { Ok(r as usize) }""")
body("pub fn read_vectored(", "        io::default_read_vectored(|b| self.read(b), bufs)")
body("pub fn is_read_vectored(", "        false")
body("pub fn read_buf(", "        io::default_read_buf(|b| self.read(b), cursor)")
body("pub fn is_write_vectored(", "        false")
body("pub fn seek(", """        let (w, o) = match pos {
            SeekFrom::Start(o) => (0, o as i64),
            SeekFrom::Current(o) => (1, o),
            SeekFrom::End(o) => (2, o),
        };
        let r = unsafe { vpfs_seek(self.0, w, o) };
        if r < 0 { Err(vp_err(r)) } else { Ok(r as u64) }""")
body("pub fn size(", "        Some(Ok(unsafe { vpfs_size(self.0) }))")
body("pub fn tell(", "        self.seek(SeekFrom::Current(0))")
blk = blk.replace("mut cursor: BorrowedCursor", "cursor: BorrowedCursor")
s = s[:a] + blk + s[b:]
a = s.index("impl fmt::Debug for File {")
s = s[:a] + s[a:].replace("self.0", "Ok(())", 1)
# FileAttr clone
s = s.replace("""    fn clone(&self) -> FileAttr {
        panic!("vp: unsupported")""", """    fn clone(&self) -> FileAttr {
        FileAttr(self.0)""", 1)
open(p, "w").write(s)

# ---- TcpStream ----
p = os.path.join(dst, "std/src/sys/net/connection/unsupported.rs")
s = open(p).read()
a = s.index("pub struct TcpStream(!);"); b = s.index("pub struct TcpListener(!);")
blk = s[a:b].replace("self.0", "unsupported()")
blk = blk.replace("pub struct TcpStream(!);", """pub struct TcpStream(u32);

unsafe extern "C" {
    fn vpnet_connect(addr: u32, port: u32) -> i64;
    fn vpnet_read(fd: u32, buf: *mut u8, len: usize) -> i64;
    fn vpnet_write(fd: u32, buf: *const u8, len: usize) -> i64;
    fn vpnet_timeout(fd: u32, kind: u32, secs: u64, nanos: u32);
    fn vpnet_close(fd: u32);
}
fn vp_err(r: i64) -> io::Error {
    io::Error::from(match r {
        -1 => io::ErrorKind::WouldBlock,
        -2 => io::ErrorKind::ConnectionReset,
        -3 => io::ErrorKind::ConnectionRefused,
        -4 => io::ErrorKind::Interrupted,
        _ => io::ErrorKind::Other,
    })
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        unsafe { vpnet_close(self.0) }
    }
}""", 1)
def nbody(sig, newsig, code):
    global blk
    i = blk.index(sig)
    j = blk.index("\n    }\n", i) + len("\n    }\n")
    blk = blk[:i] + newsig + " {\n" + code + "\n    }\n" + blk[j:]
nbody("pub fn connect<A: ToSocketAddrs>(_: A)", "pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream>", """        match addr.to_socket_addrs()?.next() {
            Some(SocketAddr::V4(a)) => {
                let r = unsafe { vpnet_connect(u32::from_be_bytes(a.ip().octets()), a.port() as u32) };
                if r < 0 { Err(vp_err(r)) } else { Ok(TcpStream(r as u32)) }
            }
            _ => unsupported(),
        }""")
nbody("pub fn connect_timeout(", "pub fn connect_timeout(a: &SocketAddr, _: Duration) -> io::Result<TcpStream>", "        Self::connect(a)")
for k, n in ((0, "set_read_timeout"), (1, "set_write_timeout")):
    nbody(f"pub fn {n}(", f"pub fn {n}(&self, d: Option<Duration>) -> io::Result<()>", f"""        if d == Some(Duration::ZERO) {{
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }}
        let (s, n) = match d {{ Some(d) => (d.as_secs(), d.subsec_nanos()), None => (u64::MAX, 0) }};
        unsafe {{ vpnet_timeout(self.0, {k}, s, n) }};
        Ok(())""")
nbody("pub fn read(", "pub fn read(&self, buf: &mut [u8]) -> io::Result<usize>", """        let r = unsafe { vpnet_read(self.0, buf.as_mut_ptr(), buf.len()) };
        if r < 0 { Err(vp_err(r)) } else { Ok(r as usize) }""")
nbody("pub fn read_buf(", "pub fn read_buf(&self, c: BorrowedCursor<'_, u8>) -> io::Result<()>", "        io::default_read_buf(|b| self.read(b), c)")
nbody("pub fn read_vectored(", "pub fn read_vectored(&self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize>", "        io::default_read_vectored(|b| self.read(b), b)")
nbody("pub fn is_read_vectored(", "pub fn is_read_vectored(&self) -> bool", "        false")
nbody("pub fn write(", "pub fn write(&self, buf: &[u8]) -> io::Result<usize>", """        let r = unsafe { vpnet_write(self.0, buf.as_ptr(), buf.len()) };
        if r < 0 { Err(vp_err(r)) } else { Ok(r as usize) }""")
nbody("pub fn write_vectored(", "pub fn write_vectored(&self, b: &[IoSlice<'_>]) -> io::Result<usize>", "        io::default_write_vectored(|b| self.write(b), b)")
nbody("pub fn is_write_vectored(", "pub fn is_write_vectored(&self) -> bool", "        false")
nbody("pub fn duplicate(", "pub fn duplicate(&self) -> io::Result<TcpStream>", "        Ok(TcpStream(self.0))")
nbody("pub fn set_nodelay(", "pub fn set_nodelay(&self, _: bool) -> io::Result<()>", "        Ok(())")
nbody("pub fn shutdown(", "pub fn shutdown(&self, _: Shutdown) -> io::Result<()>", "        Ok(())")
i = blk.index("impl fmt::Debug for TcpStream")
blk = blk[:i] + blk[i:].replace("unsupported()", "Ok(())", 1)
s = s[:a] + blk + s[b:]
s = s.replace("pub struct LookupHost(!);", "pub struct LookupHost(Option<SocketAddr>);", 1)
i = s.index("impl Iterator for LookupHost")
s = s[:i] + s[i:].replace("self.0", "self.0.take()", 1)
i = s.index("pub fn lookup_host(_host: &str, _port: u16)")
s = s[:i] + """pub fn lookup_host(_host: &str, port: u16) -> io::Result<LookupHost> {
    Ok(LookupHost(Some(SocketAddr::new(crate::net::IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), port))))
}
"""
open(p, "w").write(s)

# ---- deterministic hash (any hash function is legal; iteration order is not relied on) ----
edit("std/src/hash/random.rs",
     ("self.0.write(msg)", "let _ = msg;"),
     ("self.0.write_str(s);", "let _ = s;"),
     ("self.0.finish()", "0x5bd1_e995_5bd1_e995"))

# ---- UTF-8 validation summary ----
edit("core/src/str/validations.rs",
     ("#[inline(always)]\n#[rustc_allow_const_fn_unstable(const_eval_select)] // fallback impl has same behavior\npub(super) const fn run_utf8_validation(v: &[u8]) -> Result<(), Utf8Error> {",
      """#[inline(never)]
#[rustc_allow_const_fn_unstable(const_eval_select)]
pub(super) const fn run_utf8_validation(v: &[u8]) -> Result<(), Utf8Error> {
    const_eval_select!(
        @capture { v: &[u8] } -> Result<(), Utf8Error>:
        if const {
            run_utf8_validation_orig(v)
        } else {
            unsafe extern "C" {
                fn vp_utf8(p: *const u8, n: usize) -> i32;
            }
            // SAFETY: pure function of the bytes
            if unsafe { vp_utf8(v.as_ptr(), v.len()) } != 0 {
                Ok(())
            } else {
                Err(Utf8Error { valid_up_to: 0, error_len: None })
            }
        }
    )
}

#[inline(always)]
#[rustc_allow_const_fn_unstable(const_eval_select)] // fallback impl has same behavior
const fn run_utf8_validation_orig(v: &[u8]) -> Result<(), Utf8Error> {"""))
