//! Sockets, message framing and the fork-server process.
use std::ffi::CString;
use std::os::fd::RawFd;

pub const M_HELLO: u32 = 1;
pub const M_QUIESCE: u32 = 2;
pub const M_FORKED: u32 = 4;
pub const M_EXEC: u32 = 5;
pub const M_POINT: u32 = 6;
pub const M_BADKILL: u32 = 7;
pub const M_KILL: u32 = 8;
pub const M_CONNECT: u32 = 9;
pub const M_LISTEN: u32 = 10;
pub const M_OPENDENIED: u32 = 11;
pub const M_REAPED: u32 = 12;
pub const M_ESCAPE: u32 = 13;
pub const M_ACK: u32 = 14;
pub const M_DATA: u32 = 15;
pub const M_BADCLOSE: u32 = 16;
pub const M_MKSTEMP: u32 = 17;
pub const M_EXITED: u32 = 18;
pub const M_CLEANED: u32 = 19;
pub const M_OPENFILE: u32 = 20;
pub const M_SELECT: u32 = 21;
pub const M_RET: u32 = 23;

pub const C_RET: u32 = 100;
pub const C_RAISE: u32 = 101;
pub const C_CHLD: u32 = 102;
pub const C_WAITZ: u32 = 103;
pub const C_TIME: u32 = 104;
pub const C_FDS: u32 = 105;
pub const C_MASK: u32 = 106;
pub const C_KILL: u32 = 107;
pub const P_WRITE: u32 = 150;
pub const P_READ: u32 = 151;
pub const P_CLOSE: u32 = 152;
pub const P_EXIT: u32 = 153;
pub const P_RAISE: u32 = 154;
pub const P_IGNORE: u32 = 155;
pub const P_FORK: u32 = 156;
pub const P_STAT: u32 = 157;
pub const S_RUN: u32 = 200;
pub const S_CLEAN: u32 = 201;

// Point kinds, as bits of the mask.
pub const K_WAIT: u32 = 0;
pub const K_PIPE: u32 = 1;
pub const K_FORK: u32 = 2;
pub const K_MKSTEMP: u32 = 3;
pub const K_READ: u32 = 4;
pub const K_WRITE: u32 = 5;
pub const K_DUP2: u32 = 6;
pub const K_SETSID: u32 = 7;
pub const K_ACCEPT: u32 = 8;
pub const K_OPEN: u32 = 9;
pub const K_CLOSE: u32 = 10;
pub const K_EXECVE: u32 = 11;
pub const K_PROC: u32 = 13;
pub const K_SELECT: u32 = 15;
pub const K_EPOLL: u32 = 16;
pub const K_CHILD: u32 = 31;
pub const KIND_NAMES: [&str; 17] = ["wait", "pipe", "fork", "mkstemp", "read", "write", "dup2", "setsid", "accept", "open", "close", "execve", "fcntl", "proc", "kill", "select", "epoll"];

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Hdr { pub ty: u32, pub a: i32, pub b: i32, pub c: i32, pub d: i64, pub e: i64 }
const HS: usize = std::mem::size_of::<Hdr>();

pub fn hdr(ty: u32, a: i32, b: i32) -> Hdr { Hdr { ty, a, b, ..Default::default() } }

/// An owned fd.
#[derive(Debug)]
pub struct Fd(pub RawFd);
impl Drop for Fd { fn drop(&mut self) { if self.0 >= 0 { unsafe { libc::close(self.0); } } } }

pub fn socketpair(ty: i32) -> (Fd, Fd) {
    let mut sv = [0; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, ty | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) };
    assert!(r == 0, "socketpair: {}", std::io::Error::last_os_error());
    (Fd(sv[0]), Fd(sv[1]))
}

pub fn send(fd: RawFd, h: &Hdr, p: &[u8], pass: Option<RawFd>) -> std::io::Result<()> {
    unsafe {
        let mut iov = [
            libc::iovec { iov_base: h as *const _ as *mut _, iov_len: HS },
            libc::iovec { iov_base: p.as_ptr() as *mut _, iov_len: p.len() },
        ];
        let mut m: libc::msghdr = std::mem::zeroed();
        m.msg_iov = iov.as_mut_ptr();
        m.msg_iovlen = if p.is_empty() { 1 } else { 2 };
        let mut cb = [0u64; 8];
        if let Some(f) = pass {
            m.msg_control = cb.as_mut_ptr() as *mut _;
            m.msg_controllen = libc::CMSG_SPACE(4) as usize;
            let c = libc::CMSG_FIRSTHDR(&m);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN(4) as usize;
            *(libc::CMSG_DATA(c) as *mut i32) = f;
        }
        loop {
            let r = libc::sendmsg(fd, &m, libc::MSG_NOSIGNAL);
            if r >= 0 { return Ok(()); }
            let e = std::io::Error::last_os_error();
            if e.kind() != std::io::ErrorKind::Interrupted { return Err(e); }
        }
    }
}

/// None at end of file.
pub fn recv(fd: RawFd) -> std::io::Result<Option<(Hdr, Vec<u8>, Option<Fd>)>> {
    unsafe {
        let mut h = Hdr::default();
        let mut buf: Vec<u8> = Vec::with_capacity(66000);
        let mut iov = [
            libc::iovec { iov_base: &mut h as *mut _ as *mut _, iov_len: HS },
            libc::iovec { iov_base: buf.as_mut_ptr() as *mut _, iov_len: 66000 },
        ];
        let mut m: libc::msghdr = std::mem::zeroed();
        m.msg_iov = iov.as_mut_ptr();
        m.msg_iovlen = 2;
        let mut cb = [0u64; 8];
        m.msg_control = cb.as_mut_ptr() as *mut _;
        m.msg_controllen = 64;
        loop {
            let r = libc::recvmsg(fd, &mut m, libc::MSG_CMSG_CLOEXEC);
            if r < 0 {
                let e = std::io::Error::last_os_error();
                if e.kind() == std::io::ErrorKind::Interrupted { continue; }
                if e.raw_os_error() == Some(libc::ECONNRESET) { return Ok(None); }
                return Err(e);
            }
            if r == 0 { return Ok(None); }
            assert!(r as usize >= HS, "short message");
            buf.set_len(r as usize - HS);
            let c = libc::CMSG_FIRSTHDR(&m);
            let got = if !c.is_null() && (*c).cmsg_type == libc::SCM_RIGHTS {
                Some(Fd(*(libc::CMSG_DATA(c) as *const i32)))
            } else { None };
            return Ok(Some((h, buf, got)));
        }
    }
}

pub fn set_timeout(fd: RawFd, secs: i64) {
    let tv = libc::timeval { tv_sec: secs, tv_usec: 0 };
    unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const _, 16); }
}
pub fn set_nonblock(fd: RawFd) {
    unsafe { let f = libc::fcntl(fd, libc::F_GETFL); libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK); }
}
/// Poll one or two fds for input.
pub fn poll_in(fds: &[RawFd], ms: i32) -> Vec<bool> {
    let mut p: Vec<libc::pollfd> = fds.iter().map(|f| libc::pollfd { fd: *f, events: libc::POLLIN, revents: 0 }).collect();
    loop {
        let r = unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, ms) };
        if r >= 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted { break; }
    }
    p.iter().map(|x| x.revents != 0).collect()
}
/// Nonblocking read of whatever is there; true at EOF or error.
pub fn drain(fd: RawFd, out: &mut Vec<u8>) -> bool {
    let mut b = [0u8; 65536];
    loop {
        let r = unsafe { libc::recv(fd, b.as_mut_ptr() as *mut _, b.len(), libc::MSG_DONTWAIT) };
        if r > 0 { out.extend_from_slice(&b[..r as usize]); continue; }
        if r == 0 { return true; }
        let e = std::io::Error::last_os_error();
        match e.kind() {
            std::io::ErrorKind::WouldBlock => return false,
            std::io::ErrorKind::Interrupted => continue,
            _ => return true,
        }
    }
}
/// Nonblocking write of as much as fits.
pub fn put(fd: RawFd, data: &[u8]) -> usize {
    let mut o = 0;
    while o < data.len() {
        let r = unsafe { libc::send(fd, data[o..].as_ptr() as *const _, data.len() - o, libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) };
        if r <= 0 { break; }
        o += r as usize;
    }
    o
}

pub fn memfd(name: &str) -> Fd {
    let n = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0);
    unsafe { let f = libc::fcntl(fd, libc::F_GETFL); libc::fcntl(fd, libc::F_SETFL, f | libc::O_APPEND); }
    Fd(fd)
}
pub fn fd_contents(fd: RawFd) -> Vec<u8> {
    let mut out = Vec::new();
    let mut b = [0u8; 65536];
    loop {
        let r = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), out.len() as i64) };
        if r <= 0 { return out; }
        out.extend_from_slice(&b[..r as usize]);
    }
}
pub fn fstat(fd: RawFd) -> (u64, u64) {
    unsafe { let mut s: libc::stat = std::mem::zeroed(); libc::fstat(fd, &mut s); (s.st_dev, s.st_ino) }
}

/// A running fork server: the real procstar binary stopped before main().
pub struct Server {
    pub sock: Fd,
    pub pid: i32,
    pub out: Fd,
    pub err: Fd,
    pub inp: Fd,
    pub scratch: String,
}

impl Server {
    pub fn spawn(bin: &str, args: &[String], env: &[(Vec<u8>, Vec<u8>)], scratch: &str, extra_fds: &[RawFd], ign: &[i32]) -> Server {
        let (mine, theirs) = socketpair(libc::SOCK_SEQPACKET);
        let (out, err, inp) = (memfd("out"), memfd("err"), memfd("in"));
        // stdin reads from position 0; it is not appended to.
        let cbin = CString::new(bin).unwrap();
        let mut av: Vec<CString> = vec![CString::new("procstar").unwrap()];
        av.extend(args.iter().map(|a| CString::new(a.as_str()).unwrap()));
        let mut ap: Vec<*const libc::c_char> = av.iter().map(|a| a.as_ptr()).collect();
        ap.push(std::ptr::null());
        let mut ev: Vec<CString> = env.iter().map(|(k, v)| { let mut b = k.clone(); b.push(b'='); b.extend(v); CString::new(b).unwrap() }).collect();
        ev.push(CString::new("PX_SERVER=1").unwrap());
        ev.push(CString::new(format!("PX_SCRATCH={scratch}")).unwrap());
        let mut ep: Vec<*const libc::c_char> = ev.iter().map(|a| a.as_ptr()).collect();
        ep.push(std::ptr::null());
        let cs = CString::new(scratch).unwrap();
        let extra: Vec<RawFd> = extra_fds.to_vec();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                { let rl = libc::rlimit { rlim_cur: 6000, rlim_max: 6000 }; libc::setrlimit(libc::RLIMIT_NOFILE, &rl); } if libc::dup2(theirs.0, 5990) < 0 { libc::_exit(99); }
                libc::dup2(inp.0, 0);
                libc::dup2(out.0, 1);
                libc::dup2(err.0, 2);
                for (i, f) in extra.iter().enumerate() { libc::dup2(*f, 3 + i as i32); }
                // close everything else
                libc::syscall(libc::SYS_close_range, 3 + extra.len() as u32, 5989u32, 0u32);
                libc::syscall(libc::SYS_close_range, 5991u32, u32::MAX, 0u32);
                if libc::chdir(cs.as_ptr()) != 0 { libc::_exit(90); }
                libc::umask(0o022);
                for s in 1..65 { libc::signal(s, if ign.contains(&s) { libc::SIG_IGN } else { libc::SIG_DFL }); }
                libc::setgroups(0, std::ptr::null());
                libc::setgid(65534);
                libc::setuid(65534);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::execve(cbin.as_ptr(), ap.as_ptr(), ep.as_ptr());
                libc::_exit(91);
            }
        }
        drop(theirs);
        set_timeout(mine.0, 60);
        Server { sock: mine, pid, out, err, inp, scratch: scratch.to_string() }
    }
    pub fn run(&self, mask: u32, mono: i64, wall: i64) -> Fd {
        unsafe {
            libc::ftruncate(self.out.0, 0);
            libc::ftruncate(self.err.0, 0);
            libc::lseek(self.inp.0, 0, libc::SEEK_SET);
        }
        let (mine, theirs) = socketpair(libc::SOCK_SEQPACKET);
        let h = Hdr { ty: S_RUN, a: mask as i32, d: mono, e: wall, ..Default::default() };
        send(self.sock.0, &h, &[], Some(theirs.0)).expect("server gone");
        mine
    }
    pub fn clean(&self) -> i32 {
        send(self.sock.0, &hdr(S_CLEAN, 0, 0), &[], None).expect("server gone");
        match recv(self.sock.0) {
            Ok(Some((h, _, _))) if h.ty == M_CLEANED => h.a,
            x => panic!("server clean: {:?}", x),
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        unsafe { libc::kill(self.pid, libc::SIGKILL); let mut s = 0; libc::waitpid(self.pid, &mut s, 0); }
    }
}
