//! The operating-system seam: libc entry points interposed in the harness executable.
//!
//! Inside an execution (per thread) IPv4 sockets are carried by AF_UNIX sockets in a private
//! abstract name space (delivery is synchronous, any IP/port can be used, nothing reaches a real
//! network), random bytes are deterministic, and file operations can be re-rooted, recorded,
//! refused or made to fail. Outside an execution everything passes straight to the kernel.
use libc::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FsOp {
    Open { path: String, create: bool, trunc: bool, write: bool, excl: bool },
    Write { path: String, off: u64, data: Vec<u8> },
    Truncate { path: String, len: u64 },
    Sync { path: String },
    Rename { from: String, to: String },
    Unlink { path: String },
    Mkdir { path: String },
    Rmdir { path: String },
    Link { from: String, to: String },
    Close { path: String },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Open,
    Read,
    Write,
    Seek,
    Sync,
    Truncate,
    Rename,
    Unlink,
    Mkdir,
    Close,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Pass,
    Errno(i32),
    /// transfer at most this many bytes
    Short(usize),
}

/// A datagram socket: the descriptor is one end of a socket pair, each queued datagram is one
/// token byte sent through the other end (readiness), the datagrams themselves are kept here.
struct Udp {
    bell: c_int,
    queue: std::collections::VecDeque<(Vec<u8>, SocketAddrV4)>,
}
struct Sock {
    udp: Option<Udp>,
    stream: bool,
    local: Option<SocketAddrV4>,
    peer: Option<SocketAddrV4>,
}

pub struct Exec {
    id: u64,
    rng: u64,
    rnd_tokio: u64,
    pub next_port: u16,
    socks: BTreeMap<c_int, Sock>,
    // files
    files: BTreeMap<c_int, (String, u64, bool)>, // path, position, append
    pub max_open: usize,
    pub roots: Vec<String>,
    pub rewrite: Vec<(String, String)>,
    /// writes/creations outside these prefixes are refused and recorded
    pub jail: Option<String>,
    pub escapes: Vec<String>,
    pub log: Option<Vec<FsOp>>,
    pub fault: Option<Box<dyn FnMut(Call, &str, usize) -> Act>>,
    pub connects: u64,
    /// size of the send buffer of stream sockets created from now on (0: the default)
    pub sndbuf: usize,
    pub dead_letters: u64,
    /// datagrams sent from this port so far
    pub sent_from: BTreeMap<u16, u64>,
    /// (local port, which of its sends, error): that send fails
    pub send_faults: Vec<(u16, u64, c_int)>,
    scratch_base: String,
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn init() {
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    std::env::set_var("HOME", "/nargun-home");
    // root certificates are of no use here and slow to load
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    unsafe { signal(SIGPIPE, SIG_IGN) };
    // make sure the interposed symbols are linked
    std::hint::black_box(open64 as *const () as usize);
}

fn scratch_base() -> String {
    let b = std::env::var("MC_SCRATCH").unwrap_or_else(|_| if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { "/tmp".into() });
    format!("{b}/nargun-mc.{}", std::process::id())
}

pub fn begin_execution() {
    let e = Box::new(Exec {
        id: NEXT.fetch_add(1, Ordering::Relaxed),
        rng: 0x9E3779B97F4A7C15,
        rnd_tokio: 0x1234567,
        next_port: 20000,
        socks: BTreeMap::new(),
        files: BTreeMap::new(),
        max_open: 0,
        roots: vec![],
        rewrite: vec![],
        jail: None,
        escapes: vec![],
        log: None,
        fault: None,
        connects: 0,
        sndbuf: 0,
        dead_letters: 0,
        sent_from: BTreeMap::new(),
        send_faults: vec![],
        scratch_base: scratch_base(),
    });
    EXEC.with(|x| x.set(Box::into_raw(e)));
    rand::verif_set_source(Some(rand_word));
}
pub fn end_execution() {
    rand::verif_set_source(None);
    let p = EXEC.with(|x| x.replace(std::ptr::null_mut()));
    if !p.is_null() {
        let e = unsafe { Box::from_raw(p) };
        for (fd, s) in e.socks.iter() {
            // descriptors leaked by a crashed execution
            unsafe { syscall(SYS_close, *fd) };
            if let Some(u) = &s.udp {
                unsafe { syscall(SYS_close, u.bell) };
            }
        }
        for (fd, _) in e.files.iter() {
            unsafe { syscall(SYS_close, *fd) };
        }
        let d = format!("{}/x{}", scratch_base(), e.id);
        if std::path::Path::new(&d).exists() {
            let _ = std::fs::remove_dir_all(&d);
        }
    }
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch_base());
}
/// Seed of the deterministic randomness (also BTreeMap hashing keys of this thread, if not yet used).
pub fn seed(s: u64) {
    with(|e| {
        e.rng = 0x9E3779B97F4A7C15 ^ s.wrapping_mul(0xD1342543DE82EF95);
        e.rnd_tokio = e.rng ^ 0x1234567;
    });
}
fn rand_word() -> u64 {
    with(|e| next(&mut e.rnd_tokio)).unwrap_or(4)
}
fn next(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Access to this execution's environment.
pub fn with<T>(f: impl FnOnce(&mut Exec) -> T) -> Option<T> {
    EXEC.try_with(|x| {
        let p = x.get();
        if p.is_null() || BUSY.with(|b| b.get()) {
            None
        } else {
            BUSY.with(|b| b.set(true));
            let r = f(unsafe { &mut *p });
            BUSY.with(|b| b.set(false));
            Some(r)
        }
    })
    .ok()
    .flatten()
}
/// A private scratch directory of this execution, created on first use, removed at its end.
pub fn scratch() -> String {
    let id = with(|e| e.id).expect("in execution");
    let d = format!("{}/x{}", scratch_base(), id);
    std::fs::create_dir_all(&d).expect("scratch");
    d
}
/// Tracks files below `root` (descriptor count, log, faults).
pub fn track(root: &str) {
    with(|e| e.roots.push(root.to_string()));
}
pub fn open_files() -> Vec<String> {
    with(|e| e.files.values().map(|f| f.0.clone()).collect()).unwrap_or_default()
}

fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}
fn errno() -> c_int {
    unsafe { *__errno_location() }
}

// ------------------------------------------------------------------ randomness
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let done = with(|e| {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for c in b.chunks_mut(8) {
            let w = next(&mut e.rng).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    });
    if done.is_some() {
        return len as ssize_t;
    }
    syscall(SYS_getrandom, buf, len, flags) as ssize_t
}

// ------------------------------------------------------------------ sockets
fn un_name(id: u64, kind: &str, a: SocketAddrV4) -> (sockaddr_un, socklen_t) {
    let mut s: sockaddr_un = unsafe { std::mem::zeroed() };
    s.sun_family = AF_UNIX as sa_family_t;
    let n = format!("nv{}.{}.{}.{}.{}", std::process::id(), id, kind, u32::from(*a.ip()), a.port());
    for (i, b) in n.bytes().enumerate() {
        s.sun_path[i + 1] = b as c_char;
    }
    (s, (2 + 1 + n.len()) as socklen_t)
}
fn parse_un(s: &sockaddr_un, len: socklen_t) -> Option<SocketAddrV4> {
    let n = (len as usize).checked_sub(3)?;
    let b: Vec<u8> = s.sun_path[1..1 + n].iter().map(|c| *c as u8).collect();
    let t = String::from_utf8(b).ok()?;
    let mut p = t.rsplit('.');
    let port = p.next()?.parse().ok()?;
    let ip: u32 = p.next()?.parse().ok()?;
    Some(SocketAddrV4::new(Ipv4Addr::from(ip), port))
}
unsafe fn read_in(a: *const sockaddr, len: socklen_t) -> Option<SocketAddrV4> {
    if a.is_null() || (len as usize) < std::mem::size_of::<sockaddr_in>() || (*a).sa_family != AF_INET as sa_family_t {
        return None;
    }
    let s = &*(a as *const sockaddr_in);
    Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)))
}
unsafe fn write_in(a: *mut sockaddr, len: *mut socklen_t, v: SocketAddrV4) {
    if a.is_null() || len.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as sa_family_t;
    s.sin_port = v.port().to_be();
    s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
    let n = (*len as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *len = std::mem::size_of::<sockaddr_in>() as socklen_t;
}
fn norm(a: SocketAddrV4) -> SocketAddrV4 {
    if a.ip().is_unspecified() {
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, a.port())
    } else {
        a
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if domain == AF_INET {
        let r = with(|e| {
            if ty & 0xf == SOCK_DGRAM {
                let mut p = [0 as c_int; 2];
                let flags = ty & !0xf;
                if syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | flags, 0, p.as_mut_ptr()) < 0 {
                    return -1;
                }
                e.socks.insert(p[0], Sock { udp: Some(Udp { bell: p[1], queue: Default::default() }), stream: false, local: None, peer: None });
                return p[0];
            }
            let fd = syscall(SYS_socket, AF_UNIX, ty, 0) as c_int;
            if fd >= 0 {
                if e.sndbuf > 0 {
                    let n = e.sndbuf as c_int;
                    syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, &n as *const c_int, 4);
                }
                e.socks.insert(fd, Sock { udp: None, stream: true, local: None, peer: None });
            }
            fd
        });
        if let Some(fd) = r {
            return fd;
        }
    } else if domain == AF_INET6 && with(|_| ()).is_some() {
        set_errno(EAFNOSUPPORT);
        return -1;
    }
    syscall(SYS_socket, domain, ty, proto) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let r = with(|e| {
        if !e.socks.contains_key(&fd) {
            return None;
        }
        let mut addr = read_in(a, len)?;
        if addr.port() == 0 {
            e.next_port += 1;
            addr.set_port(e.next_port);
        }
        if e.socks[&fd].udp.is_some() {
            if e.socks.values().any(|s| s.udp.is_some() && s.local == Some(addr)) {
                set_errno(EADDRINUSE);
                return Some(-1);
            }
            e.socks.get_mut(&fd).unwrap().local = Some(addr);
            return Some(0);
        }
        let (un, l) = un_name(e.id, "tL", addr);
        let rc = syscall(SYS_bind, fd, &un as *const _, l) as c_int;
        if rc == 0 {
            e.socks.get_mut(&fd).unwrap().local = Some(addr);
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_bind, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let r = with(|e| {
        if !e.socks.contains_key(&fd) {
            return None;
        }
        let addr = read_in(a, len)?;
        e.connects += 1;
        if addr.ip().octets()[0] >= 240 {
            set_errno(ENETUNREACH);
            return Some(-1);
        }
        let s = e.socks.get_mut(&fd).unwrap();
        if s.stream {
            if s.local.is_none() {
                e.next_port += 1;
                let la = SocketAddrV4::new(Ipv4Addr::LOCALHOST, e.next_port);
                let (un, l) = un_name(e.id, "tC", la);
                syscall(SYS_bind, fd, &un as *const _, l);
                s.local = Some(la);
            }
            let mut rc = -1;
            for cand in [addr, SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, addr.port())] {
                let (un, l) = un_name(e.id, "tL", cand);
                rc = syscall(SYS_connect, fd, &un as *const _, l) as c_int;
                if rc == 0 {
                    s.peer = Some(addr);
                    break;
                }
            }
            if rc != 0 && errno() == EAGAIN {
                set_errno(ECONNREFUSED);
            }
            Some(rc)
        } else {
            s.peer = Some(addr);
            Some(0)
        }
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_connect, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    let r = with(|e| {
        if !e.socks.contains_key(&fd) {
            return None;
        }
        let mut un: sockaddr_un = std::mem::zeroed();
        let mut l = std::mem::size_of::<sockaddr_un>() as socklen_t;
        let nfd = syscall(SYS_accept4, fd, &mut un as *mut _, &mut l as *mut _, flags) as c_int;
        if nfd >= 0 {
            let peer = parse_un(&un, l).unwrap_or(SocketAddrV4::new(Ipv4Addr::LOCALHOST, 1));
            let local = e.socks[&fd].local;
            e.socks.insert(nfd, Sock { udp: None, stream: true, local, peer: Some(peer) });
            write_in(a, len, peer);
        }
        Some(nfd)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_accept4, fd, a, len, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    accept4(fd, a, len, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let r = with(|e| {
        let s = e.socks.get(&fd)?;
        write_in(a, len, s.local.unwrap_or(SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0)));
        Some(0)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_getsockname, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let r = with(|e| {
        let s = e.socks.get(&fd)?;
        Some(match s.peer {
            Some(p) => {
                write_in(a, len, p);
                0
            }
            None => {
                set_errno(ENOTCONN);
                -1
            }
        })
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_getpeername, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if level == IPPROTO_TCP || level == IPPROTO_IP {
        if let Some(true) = with(|e| e.socks.contains_key(&fd)) {
            return 0;
        }
    }
    syscall(SYS_setsockopt, fd, level, name, v, l) as c_int
}
/// What the kernel says to a datagram for an address that can have no socket.
fn unsendable(a: &SocketAddrV4, n: usize) -> Option<c_int> {
    if a.port() == 0 {
        Some(EINVAL)
    } else if a.ip().is_broadcast() {
        Some(EACCES)
    } else if a.ip().octets()[0] >= 240 {
        Some(ENETUNREACH)
    } else if n > 65507 {
        Some(EMSGSIZE)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, len: socklen_t) -> ssize_t {
    let r = with(|e| {
        let s = e.socks.get(&fd)?;
        if s.stream {
            return None;
        }
        let addr = read_in(a, len).or(s.peer)?;
        if s.local.is_none() {
            e.next_port += 1;
            let la = SocketAddrV4::new(Ipv4Addr::LOCALHOST, e.next_port);
            e.socks.get_mut(&fd).unwrap().local = Some(la);
        }
        let from = norm(e.socks[&fd].local.unwrap());
        let any = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, addr.port());
        let rc = n as ssize_t;
        let nth = e.sent_from.entry(from.port()).or_default();
        *nth += 1;
        let nth = *nth - 1;
        let injected = e.send_faults.iter().find(|f| f.0 == from.port() && f.1 == nth).map(|f| f.2);
        if let Some(err) = injected.or(unsendable(&addr, n)) {
            set_errno(err);
            return Some(-1);
        }
        let mut to = e.socks.iter().filter(|(_, s)| s.udp.is_some() && s.local == Some(addr)).map(|(f, _)| *f).next();
        if to.is_none() {
            to = e.socks.iter().filter(|(_, s)| s.udp.is_some() && s.local == Some(any)).map(|(f, _)| *f).next();
        }
        match to {
            Some(t) => {
                let u = e.socks.get_mut(&t).unwrap().udp.as_mut().unwrap();
                // the bell (readiness of the descriptor) rings while the queue isn't empty
                if u.queue.is_empty() {
                    let one = 1u8;
                    syscall(SYS_sendto, u.bell, &one as *const u8, 1usize, MSG_DONTWAIT | MSG_NOSIGNAL, 0usize, 0usize);
                }
                u.queue.push_back((std::slice::from_raw_parts(buf as *const u8, n).to_vec(), from));
            }
            None => e.dead_letters += 1, // nobody listens there: UDP says nothing
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_sendto, fd, buf, n, flags, a, len) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    sendto(fd, buf, n, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    let r = with(|e| {
        let s = e.socks.get(&fd)?;
        if s.stream {
            let rc = syscall(SYS_recvfrom, fd, buf, n, flags, 0usize, 0usize) as ssize_t;
            if rc >= 0 && !a.is_null() {
                write_in(a, len, s.peer.unwrap_or(SocketAddrV4::new(Ipv4Addr::LOCALHOST, 1)));
            }
            return Some(rc);
        }
        let u = e.socks.get_mut(&fd).unwrap().udp.as_mut().unwrap();
        let Some((d, from)) = (if flags & MSG_PEEK != 0 { u.queue.front().cloned() } else { u.queue.pop_front() }) else {
            set_errno(EAGAIN);
            return Some(-1);
        };
        if u.queue.is_empty() {
            let mut token = 0u8;
            syscall(SYS_recvfrom, fd, &mut token as *mut u8, 1usize, MSG_DONTWAIT, 0usize, 0usize);
        }
        let k = d.len().min(n);
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, k);
        write_in(a, len, from);
        let rc = k as ssize_t;
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_recvfrom, fd, buf, n, flags, a, len) as ssize_t
}

// ------------------------------------------------------------------ files
unsafe fn cpath(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn absolute(p: &str) -> String {
    if p.starts_with('/') {
        return p.to_string();
    }
    let mut b = vec![0u8; 4096];
    let n = unsafe { syscall(SYS_getcwd, b.as_mut_ptr(), b.len()) };
    let cwd = if n > 1 { String::from_utf8_lossy(&b[..n as usize - 1]).into_owned() } else { "/".into() };
    format!("{}/{}", cwd.trim_end_matches('/'), p)
}
/// Lexical normalisation (scratch trees contain no symlinks).
pub fn normalise(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}
impl Exec {
    fn map_path(&self, p: &str) -> (String, Vec<u8>) {
        let mut a = absolute(p);
        for (from, to) in &self.rewrite {
            if a == *from || a.starts_with(&format!("{from}/")) {
                a = format!("{to}{}", &a[from.len()..]);
                break;
            }
        }
        let mut c = a.clone().into_bytes();
        c.push(0);
        (normalise(&a), c)
    }
    fn tracked(&self, p: &str) -> bool {
        self.roots.iter().any(|r| p == r || p.starts_with(&format!("{r}/")))
    }
    fn jailed(&mut self, what: &str, p: &str) -> bool {
        // without an explicit jail, nothing outside this process's scratch area can be changed either
        let base = self.scratch_base.clone();
        let j = self.jail.as_deref().unwrap_or(&base);
        if !(p == j || p.starts_with(&format!("{j}/")) || p.starts_with("/dev/null")) {
            self.escapes.push(format!("{what} {p}"));
            return true;
        }
        false
    }
    fn act(&mut self, c: Call, p: &str, n: usize) -> Act {
        match self.fault.as_mut() {
            Some(f) => f(c, p, n),
            None => Act::Pass,
        }
    }
    fn log(&mut self, op: impl FnOnce() -> FsOp) {
        if let Some(l) = self.log.as_mut() {
            l.push(op());
        }
    }
}

/// Absolute form of a path given relative to a directory descriptor.
fn at(dirfd: c_int, raw: &str) -> String {
    if dirfd == AT_FDCWD || raw.starts_with('/') {
        return raw.to_string();
    }
    let link = format!("/proc/self/fd/{dirfd}\0");
    let mut b = vec![0u8; 4096];
    let n = unsafe { syscall(SYS_readlink, link.as_ptr(), b.as_mut_ptr(), b.len()) };
    let dir = if n > 0 { String::from_utf8_lossy(&b[..n as usize]).into_owned() } else { "/unknown-directory".into() };
    format!("{}/{raw}", dir.trim_end_matches('/'))
}
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let r = with(|e| {
        let raw = at(dirfd, &cpath(path));
        let (np, c) = e.map_path(&raw);
        let write = flags & (O_WRONLY | O_RDWR) != 0 || flags & (O_CREAT | O_TRUNC) != 0;
        if write && e.jailed("open", &np) {
            set_errno(EACCES);
            return Some(-1);
        }
        let tracked = e.tracked(&np);
        if tracked {
            if let Act::Errno(n) = e.act(Call::Open, &np, 0) {
                set_errno(n);
                return Some(-1);
            }
        }
        let fd = syscall(SYS_openat, AT_FDCWD, c.as_ptr(), flags, mode) as c_int;
        if fd >= 0 && tracked && flags & O_DIRECTORY == 0 {
            e.files.insert(fd, (np.clone(), 0, flags & O_APPEND != 0));
            e.max_open = e.max_open.max(e.files.len());
            e.log(|| FsOp::Open { path: np, create: flags & O_CREAT != 0, trunc: flags & O_TRUNC != 0, write, excl: flags & O_EXCL != 0 });
        }
        Some(fd)
    });
    if let Some(Some(fd)) = r {
        return fd;
    }
    syscall(SYS_openat, dirfd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = with(|e| {
        if let Some(Sock { udp: Some(u), .. }) = e.socks.remove(&fd) {
            syscall(SYS_close, u.bell);
        }
        if let Some((p, _, _)) = e.files.remove(&fd) {
            e.log(|| FsOp::Close { path: p });
        }
    });
    syscall(SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let r = with(|e| {
        let (p, _, _) = e.files.get(&fd)?.clone();
        let mut n = n;
        match e.act(Call::Read, &p, n) {
            Act::Errno(x) => {
                set_errno(x);
                return Some(-1);
            }
            Act::Short(k) => n = n.min(k),
            Act::Pass => {}
        }
        let rc = syscall(SYS_read, fd, buf, n) as ssize_t;
        if rc > 0 {
            e.files.get_mut(&fd).unwrap().1 += rc as u64;
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let r = with(|e| {
        let (p, pos, app) = e.files.get(&fd)?.clone();
        let mut n = n;
        match e.act(Call::Write, &p, n) {
            Act::Errno(x) => {
                set_errno(x);
                return Some(-1);
            }
            Act::Short(k) => n = n.min(k),
            Act::Pass => {}
        }
        let at = if app { syscall(SYS_lseek, fd, 0, SEEK_END) as u64 } else { pos };
        let rc = syscall(SYS_write, fd, buf, n) as ssize_t;
        if rc > 0 {
            e.files.get_mut(&fd).unwrap().1 = at + rc as u64;
            let d = std::slice::from_raw_parts(buf as *const u8, rc as usize).to_vec();
            e.log(|| FsOp::Write { path: p, off: at, data: d });
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_write, fd, buf, n) as ssize_t
}
unsafe fn do_p(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t, wr: bool) -> ssize_t {
    let r = with(|e| {
        let (p, _, _) = e.files.get(&fd)?.clone();
        let mut n = n;
        match e.act(if wr { Call::Write } else { Call::Read }, &p, n) {
            Act::Errno(x) => {
                set_errno(x);
                return Some(-1);
            }
            Act::Short(k) => n = n.min(k),
            Act::Pass => {}
        }
        let rc = if wr { syscall(SYS_pwrite64, fd, buf, n, off) } else { syscall(SYS_pread64, fd, buf, n, off) } as ssize_t;
        if wr && rc > 0 {
            let d = std::slice::from_raw_parts(buf as *const u8, rc as usize).to_vec();
            e.log(|| FsOp::Write { path: p, off: off as u64, data: d });
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    (if wr { syscall(SYS_pwrite64, fd, buf, n, off) } else { syscall(SYS_pread64, fd, buf, n, off) }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_p(fd, buf as *mut c_void, n, off, true)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_p(fd, buf, n, off, false)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if let Some(true) = with(|e| e.files.contains_key(&fd)) {
        // one segment at a time: a legal short transfer
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    syscall(SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let r = with(|e| {
        let (p, _, _) = e.files.get(&fd)?.clone();
        if let Act::Errno(x) = e.act(Call::Seek, &p, 0) {
            set_errno(x);
            return Some(-1);
        }
        let rc = syscall(SYS_lseek, fd, off, whence) as off64_t;
        if rc >= 0 {
            e.files.get_mut(&fd).unwrap().1 = rc as u64;
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_lseek, fd, off, whence) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    let r = with(|e| {
        let (p, _, _) = e.files.get(&fd)?.clone();
        if let Act::Errno(x) = e.act(Call::Sync, &p, 0) {
            set_errno(x);
            return Some(-1);
        }
        e.log(|| FsOp::Sync { path: p });
        Some(0)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(nr, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let r = with(|e| {
        let (p, _, _) = e.files.get(&fd)?.clone();
        if let Act::Errno(x) = e.act(Call::Truncate, &p, len as usize) {
            set_errno(x);
            return Some(-1);
        }
        let rc = syscall(SYS_ftruncate, fd, len) as c_int;
        if rc == 0 {
            e.log(|| FsOp::Truncate { path: p, len: len as u64 });
        }
        Some(rc)
    });
    if let Some(Some(rc)) = r {
        return rc;
    }
    syscall(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn path_op(what: Call, name: &str, path: *const c_char, f: impl Fn(*const c_char) -> c_int, op: impl Fn(String) -> FsOp) -> Option<c_int> {
    with(|e| {
        let (np, c) = e.map_path(&cpath(path));
        if e.jailed(name, &np) {
            set_errno(EACCES);
            return -1;
        }
        let tracked = e.tracked(&np);
        if tracked {
            if let Act::Errno(x) = e.act(what, &np, 0) {
                set_errno(x);
                return -1;
            }
        }
        let rc = f(c.as_ptr() as *const c_char);
        if rc == 0 && tracked {
            e.log(|| op(np));
        }
        rc
    })
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    path_op(Call::Mkdir, "mkdir", path, |c| unsafe { syscall(SYS_mkdir, c, mode) as c_int }, |p| FsOp::Mkdir { path: p }).unwrap_or_else(|| syscall(SYS_mkdir, path, mode) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    path_op(Call::Unlink, "rmdir", path, |c| unsafe { syscall(SYS_rmdir, c) as c_int }, |p| FsOp::Rmdir { path: p }).unwrap_or_else(|| syscall(SYS_rmdir, path) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    path_op(Call::Unlink, "unlink", path, |c| unsafe { syscall(SYS_unlink, c) as c_int }, |p| FsOp::Unlink { path: p }).unwrap_or_else(|| syscall(SYS_unlink, path) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    let r = with(|e| {
        let (np, c) = e.map_path(&at(d, &cpath(path)));
        if e.jailed("unlinkat", &np) {
            set_errno(EACCES);
            return -1;
        }
        let tracked = e.tracked(&np);
        if tracked {
            if let Act::Errno(x) = e.act(Call::Unlink, &np, 0) {
                set_errno(x);
                return -1;
            }
        }
        let rc = syscall(SYS_unlinkat, AT_FDCWD, c.as_ptr(), flags) as c_int;
        if rc == 0 && tracked {
            e.log(|| if flags & AT_REMOVEDIR != 0 { FsOp::Rmdir { path: np } } else { FsOp::Unlink { path: np } });
        }
        rc
    });
    r.unwrap_or_else(|| syscall(SYS_unlinkat, d, path, flags) as c_int)
}
unsafe fn two(name: &str, what: Call, a: *const c_char, b: *const c_char, nr: c_long, op: impl Fn(String, String) -> FsOp) -> c_int {
    let r = with(|e| {
        let (na, ca) = e.map_path(&cpath(a));
        let (nb, cb) = e.map_path(&cpath(b));
        if e.jailed(name, &na) || e.jailed(name, &nb) {
            set_errno(EACCES);
            return -1;
        }
        let tracked = e.tracked(&na) || e.tracked(&nb);
        if tracked {
            if let Act::Errno(x) = e.act(what, &nb, 0) {
                set_errno(x);
                return -1;
            }
        }
        let rc = syscall(nr, ca.as_ptr(), cb.as_ptr()) as c_int;
        if rc == 0 && tracked {
            for f in e.files.values_mut() {
                if nr == SYS_rename && f.0 == na {
                    f.0 = nb.clone();
                }
            }
            e.log(|| op(na, nb));
        }
        rc
    });
    r.unwrap_or_else(|| syscall(nr, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    two("rename", Call::Rename, a, b, SYS_rename, |f, t| FsOp::Rename { from: f, to: t })
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    two("link", Call::Rename, a, b, SYS_link, |f, t| FsOp::Link { from: f, to: t })
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    two("symlink", Call::Rename, a, b, SYS_symlink, |f, t| FsOp::Link { from: f, to: t })
}
fn remap(path: *const c_char) -> Option<Vec<u8>> {
    with(|e| if e.rewrite.is_empty() { None } else { Some(e.map_path(&unsafe { cpath(path) }).1) }).flatten()
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    if *path != 0 {
        if let Some(c) = remap(path) {
            return syscall(SYS_statx, AT_FDCWD, c.as_ptr(), flags, mask, buf) as c_int;
        }
    }
    syscall(SYS_statx, d, path, flags, mask, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    match remap(path) {
        Some(c) => syscall(SYS_stat, c.as_ptr(), buf) as c_int,
        None => syscall(SYS_stat, path, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    match remap(path) {
        Some(c) => syscall(SYS_lstat, c.as_ptr(), buf) as c_int,
        None => syscall(SYS_lstat, path, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match remap(path) {
        Some(c) => syscall(SYS_access, c.as_ptr(), mode) as c_int,
        None => syscall(SYS_access, path, mode) as c_int,
    }
}
