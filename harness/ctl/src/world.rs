//! One execution of the real program, and everything around it.
use crate::engine::{Chooser, Dec, R};
use crate::msgpack::{self, V};
use crate::wire::*;
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::os::fd::RawFd;
use std::rc::Rc;

pub const MONO0: i64 = 5_000_000_000_000;
pub const WALL0: i64 = 1_700_000_000_000_000_000;

#[derive(Clone, Debug)]
pub enum Extra { PipeR, PipeW, File }
#[derive(Clone, Default)]
pub struct Conf {
    pub args: Vec<String>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub stdin: Vec<u8>,
    pub files: Vec<(String, Vec<u8>, u32)>,
    pub mask: u32,
    pub extra: Vec<Extra>,
    pub ign: Vec<i32>,               // signals that procstar is started with ignored
}
impl Conf {
    pub fn new(args: &[&str]) -> Conf {
        // Logs everything, so that nothing but the output of messages depends on the log level.
        Conf { args: ["--log-level", "trace"].iter().chain(args.iter()).map(|s| s.to_string()).collect(), env: vec![(b"PATH".to_vec(), b"/usr/bin:/bin".to_vec())], ..Default::default() }
    }
    pub fn serve() -> Conf { Conf::new(&["--serve"]) }
    pub fn mask(mut self, kinds: &[u32]) -> Conf { for k in kinds { self.mask |= 1 << k; } self }
    pub fn file(mut self, name: &str, data: &[u8]) -> Conf { self.files.push((name.to_string(), data.to_vec(), 0o644)); self }
    pub fn env(mut self, k: &str, v: &str) -> Conf { self.env.push((k.as_bytes().to_vec(), v.as_bytes().to_vec())); self }
    pub fn envb(mut self, k: &[u8], v: &[u8]) -> Conf { self.env.push((k.to_vec(), v.to_vec())); self }
    pub fn key(&self) -> String { format!("{:?}|{:?}|{:?}|{:?}", self.args, self.env, self.extra, self.ign) }
    pub fn extra_fds(&self) -> Vec<Fd> {
        self.extra.iter().map(|e| match e {
            Extra::File => memfd("extra"),
            Extra::PipeR | Extra::PipeW => unsafe {
                let mut p = [0; 2]; libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                if matches!(e, Extra::PipeR) { Fd(p[0]) } else { Fd(p[1]) }
            },
        }).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FdEnt { pub fd: i32, pub dev: u64, pub ino: u64, pub mode: u32, pub rdev: u64, pub flags: i32, pub cloexec: bool, pub off: i64, pub size: i64 }
pub fn parse_fds(t: &str) -> BTreeMap<i32, FdEnt> {
    t.lines().filter_map(|l| {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() < 9 { return None; }
        let e = FdEnt {
            fd: p[0].parse().ok()?, dev: p[1].parse().ok()?, ino: p[2].parse().ok()?, mode: u32::from_str_radix(p[3], 8).ok()?, rdev: p[4].parse().ok()?,
            flags: p[5].parse().ok()?, cloexec: p[6] != "0", off: p[7].parse().ok()?, size: p[8].parse().ok()?,
        };
        Some((e.fd, e))
    }).collect()
}

#[derive(Clone, Debug, Default)]
pub struct ExecInfo {
    pub exe: Vec<u8>, pub argv: Vec<Vec<u8>>, pub env: Vec<Vec<u8>>, pub fds: BTreeMap<i32, FdEnt>,
    pub ign: u64, pub blk: u64, pub sid: i32, pub pgid: i32, pub pid: i32, pub umask: u32, pub xerr: i32, pub cwd: String,
}
fn parse_exec(p: &[u8]) -> ExecInfo {
    let mut o = 0;
    let u = |o: &mut usize| { let v = u32::from_le_bytes(p[*o..*o + 4].try_into().unwrap()) as usize; *o += 4; v };
    let s = |o: &mut usize| { let n = u(o); let v = p[*o..*o + n].to_vec(); *o += n; v };
    let exe = s(&mut o);
    let n = u(&mut o); let argv = (0..n).map(|_| s(&mut o)).collect();
    let n = u(&mut o); let env = (0..n).map(|_| s(&mut o)).collect();
    let fds = parse_fds(&String::from_utf8_lossy(&s(&mut o)));
    let t = String::from_utf8_lossy(&s(&mut o)).to_string();
    let q: Vec<&str> = t.split(' ').collect();
    ExecInfo { exe, argv, env, fds, ign: q[0].parse().unwrap(), blk: q[1].parse().unwrap(), sid: q[2].parse().unwrap(), pgid: q[3].parse().unwrap(),
        pid: q[4].parse().unwrap(), umask: u32::from_str_radix(q[5], 8).unwrap(), xerr: q[6].parse().unwrap(), cwd: q[7..].join(" ") }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Phase { Pre, AtExec, Busy, Run, Dead }

pub struct Kid {
    pub pid: i32,
    ch: Option<Fd>,
    pub phase: Phase,
    pub exec: Option<ExecInfo>,
    pub execd: bool,
    pub status: Option<i32>,          // wait status, once dead
    pub reaped: Option<(i32, i64, i64)>, // status, mono, wall
    pub fork_mono: i64, pub fork_wall: i64,
    pub stopped: bool,
    pub pending: BTreeSet<i32>,
    pub ignored: BTreeSet<i32>,
    pub got: Vec<i32>,                // signals sent to it by procstar
    pub grand: Vec<Option<Fd>>,       // channels of its own children
    pub failed: bool,                 // ended before exec
}

#[derive(Clone, Debug)]
pub struct Rsp { pub status: u16, pub ctype: String, pub body: Vec<u8> }
impl Rsp {
    pub fn json(&self) -> R<J> { serde_json::from_slice(&self.body).map_err(|e| format!("response body is not JSON: {e}: {:?}", String::from_utf8_lossy(&self.body))) }
    pub fn data(&self) -> R<J> { Ok(self.json()?["data"].clone()) }
}
/// The other end sees the end at once, even if another thread is just forking.
fn hangup(s: &Fd) { unsafe { libc::shutdown(s.0, libc::SHUT_RDWR); } }
pub struct Req { pub what: String, pub sock: Fd, inb: Vec<u8>, outb: Vec<u8>, pub rsp: Option<Rsp>, pub eof: bool, pub taken: bool,
    /// More than one response is expected.
    pub multi: bool, pub all: Vec<Rsp> }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum WsState { Opening, Upgrading, Open, Closed }
pub struct Ws {
    pub sock: Option<Fd>,
    inb: Vec<u8>, outb: Vec<u8>, frag: Vec<u8>,
    pub preamble: Option<String>, pub upgrade: Option<String>,
    pub state: WsState,
    pub got: Vec<V>,          // messages received
    pub seen: usize,          // how many the scenario has consumed
    pub pongs: Vec<Vec<u8>>,
    pub close_rcvd: bool, pub eof: bool,
    pub mono: i64,
    pub key: String,
    pub regd: bool,           // "Registered" has been sent
    pub deaf: bool,           // does not read
    pub raw: Vec<(u8, Vec<u8>)>,   // frames, if relayed
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ConnPolicy { Accept, Refuse(i32), Ask }

#[derive(Clone)]
pub struct Op { pub name: String, pub f: Rc<dyn Fn(&mut World) -> R>, pub en: Rc<dyn Fn(&World) -> bool> }
pub struct Actor { pub ops: Vec<Op>, pub pos: usize }

#[derive(Clone, Copy, PartialEq)]
enum Ask { None, Quiesce, Point, Other }

pub struct World<'a> {
    srv: &'a Server,
    pub conf: Conf,
    ctl: Fd,
    started: bool,
    pub ch: Chooser,
    ask: Ask,
    pub timeout: i32,
    pub expire: bool,
    pub mono: i64, pub wall: i64,
    pub kids: Vec<Kid>,
    pub listen: Option<String>, pub port: i32, pub bindip: String,
    pub reqs: Vec<Req>,
    pub ws: Vec<Ws>,
    pub connects: Vec<(String, i64, bool)>,
    pub policy: ConnPolicy,
    pub ws_auto: bool, pub ws_autoreg: bool,
    pub relay: bool,                // websocket frames are left to the scenario
    pub exited: Option<i32>,
    pub notes: Vec<String>,         // things that are never right
    pub badkills: Vec<(i32, i32)>,
    pub kills: Vec<(i32, i32)>,
    pub immune: Vec<i32>,           // pids of processes that may not be signaled
    pub temps: Vec<String>,
    pub denied: Vec<String>,
    pub badclose: usize,
    pub defer: bool,                // leave new children before their first step
    pub exec_errno: Option<Rc<dyn Fn(&ExecInfo) -> i32>>,
    pub hook: Option<Rc<dyn Fn(&mut World, u32, i32, bool) -> R<i32>>>,
    pub procfile: Option<Rc<dyn Fn(&mut World, &str) -> (i32, Vec<u8>)>>,
    pub inject: bool,
    pub actors: Vec<Actor>,
    pub err: Option<String>,
    pub steps: u64,
    pub states: Vec<u64>,
    pub keep: bool,
    pub log: Vec<String>,
    pub points: u64,
    pub comm: Vec<u8>,
    pub tick: i64,                  // if nonzero, ns that pass at each env action
    pub allow_panic: bool,
    pub core: bool,                 // processes killed by a signal dump core
    pub instant: bool,              // new children may end before procstar goes on

    pub data: BTreeMap<String, i64>,  // scratch values of scenarios
    pub m: crate::model::Model,
}

macro_rules! lg { ($w:expr, $($a:tt)*) => { if $w.keep { let s = format!($($a)*); $w.log.push(s); } } }

fn proc_state(pid: i32) -> char {
    match std::fs::read_to_string(format!("/proc/{pid}/stat")) {
        Ok(t) => t.rsplit_once(')').and_then(|x| x.1.trim().chars().next()).unwrap_or('?'),
        Err(_) => 'X',
    }
}
fn wait_proc(pid: i32, f: impl Fn(char) -> bool) {
    for i in 0..200000 { if f(proc_state(pid)) { return; } if i > 100 { std::thread::sleep(std::time::Duration::from_micros(50)); } }
    panic!("process {pid} is in state {}", proc_state(pid));
}

impl<'a> World<'a> {
    pub fn start(srv: &'a Server, conf: &Conf, ch: Chooser, keep: bool) -> World<'a> {
        unsafe {
            libc::ftruncate(srv.inp.0, 0);
            if !conf.stdin.is_empty() { libc::pwrite(srv.inp.0, conf.stdin.as_ptr() as *const _, conf.stdin.len(), 0); }
        }
        World {
            srv, conf: conf.clone(), ctl: Fd(-1), started: false, ch, ask: Ask::None, timeout: -1, expire: false, mono: MONO0, wall: WALL0, kids: vec![], listen: None, port: 0, bindip: String::new(),
            reqs: vec![], ws: vec![], connects: vec![], policy: ConnPolicy::Accept, ws_auto: true, ws_autoreg: true, relay: false, exited: None, notes: vec![],
            badkills: vec![], kills: vec![], immune: vec![], temps: vec![], denied: vec![], badclose: 0, defer: false, exec_errno: None, hook: None, procfile: None, inject: false,
            actors: vec![], err: None, steps: 0, states: vec![], keep, log: vec![], points: 0, comm: vec![], tick: 0, allow_panic: false, core: false, instant: false, data: BTreeMap::new(), m: Default::default(),
        }
    }
    /// What procstar finds on its stdin (before it first runs).
    pub fn stdin(&self, data: &[u8]) { unsafe { libc::ftruncate(self.srv.inp.0, 0); libc::pwrite(self.srv.inp.0, data.as_ptr() as *const _, data.len(), 0); } }
    pub fn scratch(&self) -> &str { &self.srv.scratch }
    pub fn choose(&mut self, label: &'static str, n: usize, cost: u32) -> usize {
        let c = self.ch.choose(label, n, cost);
        if n > 1 { lg!(self, "choose {label}: {c} of {n}"); }
        c
    }
    pub fn stdout(&self) -> Vec<u8> { fd_contents(self.srv.out.0) }
    pub fn stderr(&self) -> Vec<u8> { fd_contents(self.srv.err.0) }

    fn cmd(&mut self, h: Hdr, p: &[u8]) { send(self.ctl.0, &h, p, None).expect("program gone"); }
    fn fail(&mut self, m: String) { lg!(self, "FAIL {m}"); if self.err.is_none() { self.err = Some(m); } }

    fn app_gone(&mut self) {
        let h = match recv(self.srv.sock.0) { Ok(Some((h, _, _))) if h.ty == M_EXITED => h, x => panic!("no exit report: {x:?}") };
        lg!(self, "procstar ended: status {:#x}", h.a);
        self.exited = Some(h.a);
        self.ask = Ask::None;
    }

    /// Let the program run until it waits for something, or ends.
    pub fn pump(&mut self) -> R {
        if self.exited.is_some() { return Ok(()); }
        if !self.started {
            self.started = true;
            self.ctl = self.srv.run(self.conf.mask, self.mono, self.wall);
            set_timeout(self.ctl.0, 20);
        }
        if self.ask == Ask::Quiesce {
            let b = self.expire as i32; self.expire = false;
            self.ask = Ask::None;
            self.cmd(hdr(C_RET, 0, b), &[]);
        }
        loop {
            let (h, p, fd) = match recv(self.ctl.0) {
                Ok(Some(x)) => x,
                Ok(None) => { self.app_gone(); break; }
                Err(e) => {
                    let _ = e;
                    self.kill_app();
                    return Err("procstar keeps running without ever waiting for anything".into());
                }
            };
            match h.ty {
                M_QUIESCE => { self.ask = Ask::Quiesce; self.timeout = h.a; break; }
                M_POINT => {
                    self.ask = Ask::Point;
                    let e = self.point(h.a as u32, h.b, false);
                    self.ask = Ask::None;
                    let b = self.core as i32;
                    self.cmd(hdr(C_RET, e, b), &[]);
                }
                M_SELECT => {
                    let c = self.choose("select", h.a as usize, 1);
                    self.cmd(hdr(C_RET, c as i32, 0), &[]);
                }
                M_FORKED => {
                    self.ask = Ask::Other;
                    let ch = fd.expect("no kid channel");
                    set_timeout(ch.0, 20);
                    lg!(self, "forked {}", h.a);
                    self.kids.push(Kid { pid: h.a, ch: Some(ch), phase: Phase::Pre, exec: None, execd: false, status: None, reaped: None, fork_mono: self.mono, fork_wall: self.wall,
                        stopped: false, pending: BTreeSet::new(), ignored: BTreeSet::new(), got: vec![], grand: vec![], failed: false });
                    let k = self.kids.len() - 1;
                    match recv(self.kids[k].ch.as_ref().unwrap().0) { Ok(Some((h, _, _))) if h.ty == M_HELLO => {}, x => panic!("no hello from child: {x:?}") }
                    let d = self.defer && self.choose("child-later", 2, 1) == 1;
                    if !d { self.kid_start(k); }
                    if self.instant && self.kids[k].phase == Phase::Run && self.choose("ends-at-once", 2, 1) == 1 { self.kid_exit(k, 7); }
                    self.ask = Ask::None;
                    self.cmd(hdr(C_RET, 0, 0), &[]);
                }
                M_KILL => {
                    self.ask = Ask::Other;
                    self.kills.push((h.a, h.b));
                    let e = if self.immune.contains(&h.a) { lg!(self, "signal {} to {} is not permitted", h.b, h.a); libc::EPERM } else { self.do_kill(h.a, h.b) };
                    self.ask = Ask::None;
                    self.cmd(hdr(C_RET, e, 0), &[]);
                }
                M_BADKILL => {
                    lg!(self, "signal {} sent to {}, which is not a child", h.b, h.a);
                    self.badkills.push((h.a, h.b));
                    self.cmd(hdr(C_RET, libc::ESRCH, 0), &[]);
                }
                M_CONNECT => { self.ask = Ask::Other; let addr = String::from_utf8_lossy(&p).to_string(); self.on_connect(addr); self.ask = Ask::None; }
                M_LISTEN => {
                    let t = String::from_utf8_lossy(&p).to_string();
                    let (n, a) = t.split_once(' ').unwrap();
                    self.listen = Some(n.to_string()); self.port = h.b; self.bindip = a.to_string();
                }
                M_OPENFILE => {
                    self.ask = Ask::Other;
                    let path = String::from_utf8_lossy(&p).to_string();
                    let (e, data) = match self.procfile.clone() { Some(f) => f(self, &path), None => (0, vec![]) };
                    self.ask = Ask::None;
                    self.cmd(hdr(C_RET, e, 0), &data);
                }
                M_REAPED => {
                    lg!(self, "reaped {} status {:#x}", h.a, h.b);
                    let (m, w) = (self.mono, self.wall);
                    if let Some(k) = self.kids.iter_mut().rev().find(|k| k.pid == h.a) { k.reaped = Some((h.b, m, w)); k.status = Some(h.b); k.phase = Phase::Dead; }
                }
                M_ESCAPE => self.notes.push("a child of procstar went on running as procstar".into()),
                M_OPENDENIED => { let s = format!("{} {}", h.a, String::from_utf8_lossy(&p)); lg!(self, "denied {s}"); self.denied.push(s); }
                M_BADCLOSE => { lg!(self, "close of fd {} which is not open", h.a); self.badclose += 1; }
                M_MKSTEMP => self.temps.push(String::from_utf8_lossy(&p).to_string()),
                t => panic!("message {t}"),
            }
            if self.exited.is_some() { break; }
        }
        if let Some(e) = self.err.take() { return Err(e); }
        Ok(())
    }

    fn kill_app(&mut self) {
        let t = std::fs::read_to_string(format!("/proc/{0}/task/{0}/children", self.srv.pid)).unwrap_or_default();
        for p in t.split_whitespace() { unsafe { libc::kill(p.parse().unwrap(), libc::SIGKILL); } }
        loop {
            match recv(self.srv.sock.0) { Ok(Some((h, _, _))) if h.ty == M_EXITED => { self.exited = Some(h.a); return; } Ok(Some(_)) => {}, x => panic!("no exit report: {x:?}") }
        }
    }

    fn point(&mut self, kind: u32, arg: i32, child: bool) -> i32 {
        self.points += 1;
        if let Some(h) = self.hook.clone() {
            match h(self, kind, arg, child) { Ok(e) => { if e != 0 { lg!(self, "{} {arg} (child {child}) fails with {e}", KIND_NAMES[kind as usize]); } return e; } Err(m) => { self.fail(m); return 0; } }
        }
        if self.inject && !child { if let Err(m) = self.inject_here(KIND_NAMES[kind as usize]) { self.fail(m); } }
        0
    }
    /// Maybe perform some enabled operations right here.
    fn inject_here(&mut self, at: &str) -> R {
        loop {
            let en = self.enabled();
            if en.is_empty() { return Ok(()); }
            let c = self.choose("mid", 1 + en.len(), 1);
            if c == 0 { return Ok(()); }
            lg!(self, "in {at}:");
            self.step(en[c - 1])?;
        }
    }

    //---- kids

    fn kid_fd(&self, k: usize) -> RawFd { self.kids[k].ch.as_ref().map(|f| f.0).unwrap_or(-1) }
    fn kid_start(&mut self, k: usize) {
        if self.kids[k].phase != Phase::Pre { return; }
        lg!(self, "child {} starts", self.kids[k].pid);
        if send(self.kid_fd(k), &hdr(C_RET, 0, 0), &[], None).is_err() { self.kid_eof(k); return; }
        self.kids[k].phase = Phase::Busy;
        self.kid_pump(k, 20000);
        if self.kids[k].phase == Phase::AtExec {
            if self.defer && self.choose("exec-later", 2, 1) == 1 { return; }
            self.kid_exec(k);
        }
    }
    /// The operation by which a child left behind takes its next step.
    pub fn kid_proceed(&mut self, k: usize) {
        match self.kids[k].phase { Phase::Pre => self.kid_start(k), Phase::AtExec => self.kid_exec(k), _ => {} }
    }
    fn kid_pump(&mut self, k: usize, ms: i32) {
        loop {
            let fd = self.kid_fd(k);
            if fd < 0 { return; }
            // A child may be blocked (e.g. on a full pipe) until procstar runs.
            let mut waited = 0;
            loop {
                let slice = ms.min(20);
                if poll_in(&[fd], slice)[0] { break; }
                waited += slice.max(1);
                let st = proc_state(self.kids[k].pid);
                if waited >= ms || (waited >= 40 && st == 'S') { return; }
            }
            match recv(fd) {
                Ok(Some((h, p, pass))) => match h.ty {
                    M_POINT => { let e = self.point(h.a as u32, h.b, true); let _ = send(fd, &hdr(C_RET, e, 0), &[], None); }
                    M_EXEC => {
                        let p = match pass {   // too long for a message
                            Some(f) => { let mut v = vec![0; 1 << 24]; let n = unsafe { libc::pread(f.0, v.as_mut_ptr() as *mut _, v.len(), 0) }; v.truncate(n.max(0) as usize); v }
                            None => p,
                        };
                        let x = parse_exec(&p);
                        lg!(self, "child {} execs {}", self.kids[k].pid, String::from_utf8_lossy(&x.exe));
                        self.kids[k].exec = Some(x);
                        self.kids[k].phase = Phase::AtExec;
                        return;
                    }
                    M_ESCAPE => self.notes.push("a child of procstar went on running as procstar".into()),
                    M_BADCLOSE => {}
                    M_MKSTEMP => {}
                    M_OPENDENIED => self.denied.push(format!("{} {}", h.a, String::from_utf8_lossy(&p))),
                    M_FORKED | M_QUIESCE | M_LISTEN | M_CONNECT => { self.notes.push("a child of procstar went on running as procstar".into()); let _ = send(fd, &hdr(C_RET, libc::EPERM, 0), &[], None); }
                    t => panic!("message {t} from child"),
                },
                _ => { self.kid_eof(k); return; }
            }
        }
    }
    fn kid_eof(&mut self, k: usize) {
        self.kids[k].ch = None;
        self.kid_dead(k);
    }
    /// The kid has ended, or is about to: wait for it, and tell the program.
    fn kid_dead(&mut self, k: usize) {
        let pid = self.kids[k].pid;
        if self.kids[k].phase == Phase::Dead { return; }
        if !self.kids[k].execd { self.kids[k].failed = true; }
        self.kids[k].phase = Phase::Dead;
        lg!(self, "child {pid} ends");
        self.chld(pid);
    }
    fn chld(&mut self, pid: i32) {
        if self.exited.is_some() || self.ask == Ask::None { return; }
        self.cmd(hdr(C_WAITZ, pid, 0), &[]);
        self.cmd(hdr(C_CHLD, 0, 0), &[]);
    }
    fn kid_exec(&mut self, k: usize) {
        let x = self.kids[k].exec.clone().unwrap();
        let e = match self.exec_errno.clone() { Some(f) => f(&x), None => 0 };
        let comm = self.comm.clone();
        if send(self.kid_fd(k), &hdr(C_RET, e, 0), &comm, None).is_err() { self.kid_eof(k); return; }
        self.kids[k].phase = Phase::Busy;
        if e == 0 {
            match recv(self.kid_fd(k)) {
                Ok(Some((h, _, _))) if h.ty == M_ACK => {
                    self.kids[k].phase = Phase::Run; self.kids[k].execd = true;
                    for s in 1..65 { if x.ign & (1 << (s - 1)) != 0 { self.kids[k].ignored.insert(s); } }
                }
                Ok(None) => self.kid_eof(k),
                x => panic!("exec: {x:?}"),
            }
        } else {
            lg!(self, "exec of {} fails with {e}", self.kids[k].pid);
            self.kid_pump(k, 20000);
        }
    }
    fn puppet(&mut self, k: usize, h: Hdr, p: &[u8], pass: Option<RawFd>) -> Option<(Hdr, Vec<u8>)> {
        let fd = self.kid_fd(k);
        if fd < 0 || send(fd, &h, p, pass).is_err() { return None; }
        match recv(fd) { Ok(Some((h, p, _))) => Some((h, p)), _ => None }
    }
    pub fn alive(&self, k: usize) -> bool { k < self.kids.len() && self.kids[k].phase == Phase::Run && !self.kids[k].stopped }
    /// Nonblocking write; returns bytes written and errno.
    pub fn kid_write(&mut self, k: usize, fd: i32, data: &[u8]) -> (usize, i32) {
        let mut tot = 0; let mut err = 0;
        for c in data.chunks(60000) {
            let (h, _) = self.puppet(k, hdr(P_WRITE, fd, 1), c, None).expect("puppet write");
            tot += h.a as usize; err = h.b;
            if err != 0 { break; }
        }
        lg!(self, "child {} writes {} of {} to fd {fd} (errno {err})", self.kids[k].pid, tot, data.len());
        (tot, err)
    }
    /// Nonblocking read: data (empty at EOF), or errno.
    pub fn kid_read(&mut self, k: usize, fd: i32, max: i32) -> Result<Vec<u8>, i32> {
        let (h, p) = self.puppet(k, hdr(P_READ, fd, max), &[], None).expect("puppet read");
        if h.a < 0 { Err(h.b) } else { Ok(p) }
    }
    pub fn kid_close(&mut self, k: usize, fd: i32) { let r = self.puppet(k, hdr(P_CLOSE, fd, 0), &[], None); lg!(self, "child {} closes fd {fd}: {:?}", self.kids[k].pid, r.map(|x| x.0.b)); }
    /// The program's pid, ppid, uid, euid, gid, egid.
    pub fn app_ids(&self) -> Vec<i64> {
        let f = |p: &str| std::fs::read_to_string(p).unwrap_or_default();
        let t = f(&format!("/proc/{0}/task/{0}/children", self.srv.pid));
        let Some(pid) = t.split_whitespace().next().and_then(|p| p.parse::<i64>().ok()) else { return vec![0; 6] };
        let st = f(&format!("/proc/{pid}/status"));
        let g = |k: &str, n: usize| st.lines().find_map(|l| l.strip_prefix(k)).and_then(|l| l.split_whitespace().nth(n)).and_then(|x| x.parse().ok()).unwrap_or(-1);
        vec![pid, g("PPid:", 0), g("Uid:", 0), g("Uid:", 1), g("Gid:", 0), g("Gid:", 1)]
    }
    pub fn kid_fds(&mut self, k: usize) -> BTreeMap<i32, FdEnt> {
        let (_, p) = self.puppet(k, hdr(P_STAT, 0, 0), &[], None).expect("puppet stat");
        parse_fds(&String::from_utf8_lossy(&p))
    }
    pub fn kid_ignore(&mut self, k: usize, sig: i32) { self.puppet(k, hdr(P_IGNORE, sig, 0), &[], None).expect("puppet"); self.kids[k].ignored.insert(sig); }
    pub fn kid_exit(&mut self, k: usize, code: i32) {
        lg!(self, "child {} exits with {code}", self.kids[k].pid);
        if self.puppet(k, hdr(P_EXIT, code, 0), &[], None).is_some() { panic!("exit"); }
        self.kids[k].status = Some((code & 255) << 8);
        self.kid_eof(k);
    }
    /// The kid kills itself by a signal.
    pub fn kid_raise(&mut self, k: usize, sig: i32) {
        lg!(self, "child {} raises {sig}", self.kids[k].pid);
        if let Some((h, _)) = self.puppet(k, hdr(P_RAISE, sig, 0), &[], None) { assert!(h.a == -1); return; }
        self.kids[k].status = Some(sig);
        self.kid_eof(k);
    }
    /// The kid forks a child of its own, sharing its fds; returns its index.
    pub fn kid_fork(&mut self, k: usize) -> usize {
        let (mine, theirs) = socketpair(libc::SOCK_SEQPACKET);
        set_timeout(mine.0, 20);
        let (h, _) = self.puppet(k, hdr(P_FORK, 0, 0), &[], Some(theirs.0)).expect("puppet fork");
        assert!(h.a > 0);
        lg!(self, "child {} forks {}", self.kids[k].pid, h.a);
        self.kids[k].grand.push(Some(mine));
        self.kids[k].grand.len() - 1
    }
    pub fn grand_write(&mut self, k: usize, g: usize, fd: i32, data: &[u8]) -> (usize, i32) {
        let c = self.kids[k].grand[g].as_ref().unwrap().0;
        send(c, &hdr(P_WRITE, fd, 1), data, None).unwrap();
        let (h, _, _) = recv(c).unwrap().unwrap();
        (h.a as usize, h.b)
    }
    pub fn grand_exit(&mut self, k: usize, g: usize) {
        let c = self.kids[k].grand[g].take().unwrap();
        send(c.0, &hdr(P_EXIT, 0, 0), &[], None).unwrap();
        assert!(recv(c.0).unwrap().is_none());
    }
    /// Stop or continue from outside (as by another user of the system).
    pub fn kid_stop(&mut self, k: usize) { self.do_kill(self.kids[k].pid, libc::SIGSTOP); }
    pub fn kid_cont(&mut self, k: usize) { self.do_kill(self.kids[k].pid, libc::SIGCONT); }
    pub fn kid_kill(&mut self, k: usize, sig: i32) { self.do_kill(self.kids[k].pid, sig); }

    /// Deliver a signal to a kid.  Returns errno.
    fn do_kill(&mut self, pid: i32, sig: i32) -> i32 {
        self.cmd(hdr(C_KILL, pid, sig), &[]);
        let r = loop { match recv(self.ctl.0) { Ok(Some((h, _, _))) if h.ty == M_RET => break h, x => panic!("kill: {x:?}") } };
        lg!(self, "signal {sig} to {pid}: {}", r.b);
        let Some(k) = self.kids.iter().rposition(|k| k.pid == pid) else { return r.b };
        if r.a != 0 { return r.b; }
        self.kids[k].got.push(sig);
        match self.kids[k].phase {
            Phase::Dead => {}
            Phase::Run => self.run_signal(k, sig),
            _ => {
                if sig == libc::SIGKILL {
                    self.kids[k].status = Some(sig);
                    let fd = self.kid_fd(k);
                    loop { match recv(fd) { Ok(Some(_)) => {}, _ => break } }
                    self.kid_eof(k);
                } else { self.kids[k].pending.insert(sig); }
            }
        }
        0
    }
    fn run_signal(&mut self, k: usize, sig: i32) {
        let pid = self.kids[k].pid;
        if sig == libc::SIGKILL { self.kids[k].stopped = false; return self.kid_killed(k, sig); }
        if sig == libc::SIGCONT {
            if self.kids[k].stopped {
                self.kids[k].stopped = false;
                let pend = std::mem::take(&mut self.kids[k].pending);
                if let Some(s) = pend.iter().find(|s| **s != libc::SIGPIPE) { return self.kid_killed(k, *s); }
                if !pend.is_empty() { return self.kid_raise(k, libc::SIGPIPE); }
                wait_proc(pid, |c| c != 'T');
                self.cmd(hdr(C_CHLD, 0, 0), &[]);
            }
            return;
        }
        if sig == 0 || self.kids[k].ignored.contains(&sig) || [17, 23, 28].contains(&sig) { return; }
        if sig == libc::SIGSTOP || [20, 21, 22].contains(&sig) {
            // Orphaned process groups ignore the terminal stop signals.
            if sig != libc::SIGSTOP { return; }
            if !self.kids[k].stopped {
                self.kids[k].stopped = true;
                wait_proc(pid, |c| c == 'T');
                self.cmd(hdr(C_CHLD, 0, 0), &[]);
            }
            return;
        }
        if self.kids[k].stopped { self.kids[k].pending.insert(sig); return; }
        // The puppet ignores SIGPIPE, for its own sake.
        if sig == libc::SIGPIPE { return self.kid_raise(k, sig); }
        self.kid_killed(k, sig)
    }
    fn kid_killed(&mut self, k: usize, sig: i32) {
        self.kids[k].status = Some(sig);
        let fd = self.kid_fd(k);
        while let Ok(Some(_)) = recv(fd) {}
        self.kid_eof(k);
    }

    //---- the program

    /// A signal arrives at procstar.
    pub fn raise(&mut self, sig: i32) { if self.exited.is_none() { lg!(self, "signal {sig} arrives"); self.cmd(hdr(C_RAISE, sig, 0), &[]); } }
    /// Spurious SIGCHLD.
    pub fn raise_chld(&mut self) { if self.exited.is_none() { self.cmd(hdr(C_RAISE, libc::SIGCHLD, 0), &[]); self.cmd(hdr(C_CHLD, 0, 0), &[]); } }
    /// Clocks advance.
    pub fn advance(&mut self, mono: i64, wall: i64) {
        self.mono += mono; self.wall += wall;
        if self.timeout > 0 { self.timeout = (self.timeout as i64 - mono / 1_000_000).max(0) as i32; }
        if self.exited.is_some() { return; }
        self.cmd(Hdr { ty: C_TIME, d: mono, e: wall, ..Default::default() }, &[]);
    }
    /// Time passes to the program's next timeout.
    pub fn expire(&mut self) {
        let d = self.timeout.max(0) as i64 * 1_000_000;
        lg!(self, "{} ms pass", self.timeout);
        self.advance(d, d);
        self.expire = true;
    }
    /// `ms` pass, through as many timeouts as that takes.
    pub fn sleep(&mut self, ms: i64) -> R {
        let end = self.mono + ms * 1_000_000;
        while self.exited.is_none() && self.timeout >= 0 && self.mono + self.timeout as i64 * 1_000_000 <= end { self.expire(); self.settle()?; }
        if self.mono < end { let d = end - self.mono; self.advance(d, d); }
        Ok(())
    }
    pub fn fds(&mut self) -> BTreeMap<i32, FdEnt> {
        self.cmd(hdr(C_FDS, 0, 0), &[]);
        match recv(self.ctl.0) { Ok(Some((h, p, _))) if h.ty == M_DATA => parse_fds(&String::from_utf8_lossy(&p)), x => panic!("fds: {x:?}") }
    }
    pub fn set_mask(&mut self, kinds: &[u32]) { let mut m = 0u32; for k in kinds { m |= 1 << k; } self.cmd(hdr(C_MASK, m as i32, 0), &[]); }

    /// Run to quiescence, answering what is answered automatically.
    pub fn settle(&mut self) -> R {
        for _ in 0..100000 {
            self.pump()?;
            let mut again = false;
            for k in 0..self.kids.len() { if self.kids[k].phase == Phase::Busy { self.kid_pump(k, 20); if self.kids[k].phase == Phase::AtExec { self.kid_exec(k); } if self.kids[k].phase != Phase::Busy { again = true; } } }
            again |= self.service()?;
            if self.exited.is_some() || !again { self.note_state(); return Ok(()); }
        }
        Err("procstar never settles".into())
    }
    fn note_state(&mut self) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for k in &self.kids { (k.phase, k.exec.is_some(), k.status, k.reaped.is_some(), k.stopped, &k.got).hash(&mut h); }
        for a in &self.actors { a.pos.hash(&mut h); }
        for w in &self.ws { (w.state, w.got.len(), w.close_rcvd, w.eof, w.sock.is_some()).hash(&mut h); }
        for r in &self.reqs { (&r.what, r.rsp.as_ref().map(|x| x.status)).hash(&mut h); }
        (self.exited, self.timeout, self.mono - MONO0, self.connects.len()).hash(&mut h);
        (&self.conf.args, &self.conf.env, &self.conf.stdin, &self.conf.files).hash(&mut h);
        self.states.push(h.finish());
    }

    //---- HTTP

    pub fn http_raw(&mut self, what: &str, data: &[u8]) -> usize {
        let name = self.listen.clone().expect("not listening");
        let sock = unsafe {
            let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            let mut a: libc::sockaddr_un = std::mem::zeroed();
            a.sun_family = libc::AF_UNIX as u16;
            for (i, b) in name.bytes().enumerate() { a.sun_path[1 + i] = b as i8; }
            let r = libc::connect(fd, &a as *const _ as *const _, (3 + name.len()) as u32);
            if r != 0 && self.exited.is_none() { panic!("connect to procstar: {}", std::io::Error::last_os_error()); }
            Fd(fd)
        };
        lg!(self, "request {what}");
        let n = if self.exited.is_none() { put(sock.0, data) } else { data.len() };
        self.reqs.push(Req { what: what.to_string(), sock, inb: vec![], outb: data[n..].to_vec(), rsp: None, eof: false, taken: false, multi: false, all: vec![] });
        self.reqs.len() - 1
    }
    /// More of a request.
    pub fn http_more(&mut self, i: usize, data: &[u8]) { let fd = self.reqs[i].sock.0; unsafe { libc::send(fd, data.as_ptr() as *const _, data.len(), libc::MSG_NOSIGNAL); } }
    pub fn http_drop(&mut self, i: usize) { hangup(&self.reqs[i].sock); self.reqs[i].sock = Fd(-1); self.reqs[i].eof = true; }
    pub fn http(&mut self, method: &str, path: &str, body: Option<&J>) -> usize {
        let b = body.map(|j| j.to_string()).unwrap_or_default();
        let h = if body.is_some() { format!("Content-Type: application/json\r\nContent-Length: {}\r\n", b.len()) } else { String::new() };
        self.http_raw(&format!("{method} {path}"), format!("{method} {path} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n{h}\r\n{b}").as_bytes())
    }
    /// Request and response, with nothing else happening.
    pub fn call(&mut self, method: &str, path: &str, body: Option<&J>) -> R<Rsp> {
        let i = self.http(method, path, body);
        self.settle()?;
        self.take(i)
    }
    pub fn take(&mut self, i: usize) -> R<Rsp> {
        self.reqs[i].taken = true;
        self.reqs[i].rsp.clone().ok_or_else(|| format!("no response to {}{}", self.reqs[i].what, if self.exited.is_some() { " (procstar ended)" } else { "" }))
    }
    pub fn get(&mut self, path: &str) -> R<J> {
        let r = self.call("GET", path, None)?;
        if r.status != 200 { return Err(format!("GET {path}: status {}", r.status)); }
        r.data()
    }
    fn service_http(&mut self) -> bool {
        let mut did = false;
        for r in self.reqs.iter_mut() {
            if r.rsp.is_some() || r.eof { continue; }
            if !r.outb.is_empty() { let n = put(r.sock.0, &r.outb); if n > 0 { r.outb.drain(..n); did = true; } }
            let n0 = r.inb.len();
            let eof = drain(r.sock.0, &mut r.inb);
            if r.inb.len() != n0 { did = true; }
            if let Some(p) = r.inb.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&r.inb[..p]).to_string();
                let mut len = None; let mut ctype = String::new();
                for l in head.split("\r\n").skip(1) {
                    if let Some((k, v)) = l.split_once(':') {
                        if k.eq_ignore_ascii_case("content-length") { len = v.trim().parse::<usize>().ok(); }
                        if k.eq_ignore_ascii_case("content-type") { ctype = v.trim().to_string(); }
                    }
                }
                let body = &r.inb[p + 4..];
                let n = if head.starts_with("HTTP/1.1 204") || r.what.starts_with("HEAD ") { 0 } else { len.unwrap_or(if eof { body.len() } else { usize::MAX }) };
                if body.len() >= n {
                    let status = head.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
                    let rsp = Rsp { status, ctype, body: body[..n].to_vec() };
                    if r.multi { r.all.push(rsp); r.inb.drain(..p + 4 + n); did = true; continue; }
                    r.rsp = Some(rsp);
                    // Hang up, without discarding the descriptor's number.
                    unsafe { libc::shutdown(r.sock.0, libc::SHUT_RDWR); }
                    did = true;
                }
            }
            if eof { r.eof = true; }
        }
        did
    }

    //---- websocket server

    fn on_connect(&mut self, addr: String) {
        let ok = match self.policy { ConnPolicy::Accept => 0, ConnPolicy::Refuse(e) => e, ConnPolicy::Ask => [0, libc::ECONNREFUSED][self.choose("connect", 2, 0)] };
        lg!(self, "connect to {addr}: {ok}");
        self.connects.push((addr, self.mono, ok == 0));
        if ok != 0 { self.cmd(hdr(C_RET, ok, 0), &[]); return; }
        let (mine, theirs) = socketpair(libc::SOCK_STREAM);
        send(self.ctl.0, &hdr(C_RET, 0, 0), &[], Some(theirs.0)).expect("program gone");
        self.ws.push(Ws { sock: Some(mine), inb: vec![], outb: vec![], frag: vec![], preamble: None, upgrade: None, state: WsState::Opening, got: vec![], seen: 0, pongs: vec![],
            close_rcvd: false, eof: false, mono: self.mono, key: String::new(), regd: false, deaf: false, raw: vec![] });
    }
    fn service_ws(&mut self) -> R<bool> {
        let mut did = false;
        for i in 0..self.ws.len() {
            let w = &mut self.ws[i];
            let Some(s) = &w.sock else { continue };
            if w.deaf { continue; }
            if !w.outb.is_empty() { let n = put(s.0, &w.outb); if n > 0 { w.outb.drain(..n); did = true; } }
            let n0 = w.inb.len();
            if drain(s.0, &mut w.inb) { w.eof = true; }
            if w.inb.len() != n0 { did = true; }
            if w.preamble.is_none() {
                if let Some(p) = w.inb.iter().position(|b| *b == b'\n') { w.preamble = Some(String::from_utf8_lossy(&w.inb[..p]).to_string()); w.inb.drain(..=p); }
            }
            if w.preamble.is_some() && w.upgrade.is_none() {
                if let Some(p) = w.inb.windows(4).position(|x| x == b"\r\n\r\n") {
                    let t = String::from_utf8_lossy(&w.inb[..p]).to_string();
                    w.key = t.lines().find_map(|l| l.split_once(':').filter(|x| x.0.eq_ignore_ascii_case("sec-websocket-key")).map(|x| x.1.trim().to_string())).unwrap_or_default();
                    w.upgrade = Some(t); w.inb.drain(..p + 4); w.state = WsState::Upgrading;
                    if self.ws_auto { self.ws_accept(i); did = true; }
                }
            }
            if self.ws[i].state == WsState::Open { did |= self.ws_frames(i)?; }
        }
        Ok(did)
    }
    fn ws_put(&mut self, i: usize, data: &[u8]) {
        let w = &mut self.ws[i];
        w.outb.extend_from_slice(data);
        if let Some(s) = &w.sock { let n = put(s.0, &w.outb); w.outb.drain(..n); }
    }
    /// Complete the handshake.
    pub fn ws_accept(&mut self, i: usize) {
        use base64::Engine; use sha1::Digest;
        let k = format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", self.ws[i].key);
        let a = base64::engine::general_purpose::STANDARD.encode(sha1::Sha1::digest(k.as_bytes()));
        lg!(self, "ws {i}: handshake");
        self.ws_put(i, format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {a}\r\n\r\n").as_bytes());
        self.ws[i].state = WsState::Open;
    }
    /// Refuse the handshake.
    pub fn ws_reject(&mut self, i: usize) { self.ws_put(i, b"HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n"); self.ws_drop(i); }
    fn ws_frames(&mut self, i: usize) -> R<bool> {
        let mut did = false;
        loop {
            let w = &mut self.ws[i];
            let b = &w.inb;
            if b.len() < 2 { break; }
            let (fin, op, masked) = (b[0] & 0x80 != 0, b[0] & 15, b[1] & 0x80 != 0);
            let mut o = 2; let mut n = (b[1] & 127) as usize;
            if n == 126 { if b.len() < 4 { break; } n = u16::from_be_bytes([b[2], b[3]]) as usize; o = 4; }
            else if n == 127 { if b.len() < 10 { break; } n = u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize; o = 10; }
            if !masked { return Err("unmasked websocket frame from client".into()); }
            if b.len() < o + 4 + n { break; }
            let m = [b[o], b[o + 1], b[o + 2], b[o + 3]];
            let p: Vec<u8> = b[o + 4..o + 4 + n].iter().enumerate().map(|(j, x)| x ^ m[j % 4]).collect();
            w.inb.drain(..o + 4 + n);
            did = true;
            if self.relay && op >= 8 { w.raw.push((op, p)); continue; }
            match op {
                0 | 2 => {
                    w.frag.extend(p);
                    if fin {
                        let d = std::mem::take(&mut w.frag);
                        let v = msgpack::decode(&d).map_err(|e| format!("procstar sent a message that is not MessagePack: {e}"))?;
                        let ty = v.s("type").to_string();
                        w.got.push(v);
                        if self.relay { w.raw.push((2, d)); }
                        if self.keep { let t = self.ws[i].got.last().unwrap().json().to_string(); self.log.push(format!("ws {i} < {}", t.chars().take(300).collect::<String>())); }
                        if ty == "Register" && self.ws_autoreg { self.ws_send(i, &msgpack::map(&[("type", V::S("Registered".into()))])); }
                    }
                }
                8 => { w.close_rcvd = true; lg!(self, "ws {i} < close"); if self.ws[i].sock.is_some() && !self.ws[i].eof { self.ws_frame(i, 8, &p); } }
                9 => self.ws_frame(i, 10, &p),
                10 => w.pongs.push(p),
                x => return Err(format!("websocket frame with opcode {x}")),
            }
        }
        Ok(did)
    }
    pub fn ws_frame(&mut self, i: usize, op: u8, p: &[u8]) {
        let mut f = vec![0x80 | op];
        if p.len() < 126 { f.push(p.len() as u8); } else if p.len() < 65536 { f.push(126); f.extend((p.len() as u16).to_be_bytes()); } else { f.push(127); f.extend((p.len() as u64).to_be_bytes()); }
        f.extend_from_slice(p);
        self.ws_put(i, &f);
    }
    pub fn ws_send(&mut self, i: usize, v: &V) { if v.s("type") == "Registered" { self.ws[i].regd = true; } lg!(self, "ws {i} > {}", v.json()); self.ws_frame(i, 2, &msgpack::encode(v)); }
    pub fn ws_raw(&mut self, i: usize, b: &[u8]) { self.ws_put(i, b); }
    pub fn ws_drop(&mut self, i: usize) { lg!(self, "ws {i}: connection lost"); if let Some(s) = &self.ws[i].sock { hangup(s); } self.ws[i].sock = None; self.ws[i].state = WsState::Closed; }
    pub fn ws_close(&mut self, i: usize) { lg!(self, "ws {i}: close"); self.ws_frame(i, 8, &1000u16.to_be_bytes()); }
    /// Messages since the last time.
    pub fn ws_new(&mut self, i: usize) -> Vec<V> { let w = &mut self.ws[i]; let v = w.got[w.seen..].to_vec(); w.seen = w.got.len(); v }

    fn service(&mut self) -> R<bool> { let a = self.service_http(); let b = self.service_ws()?; Ok(a || b) }

    //---- interleaving

    pub fn actor(&mut self, ops: Vec<Op>) { self.actors.push(Actor { ops, pos: 0 }); }
    pub fn enabled(&self) -> Vec<usize> {
        (0..self.actors.len()).filter(|i| { let a = &self.actors[*i]; a.pos < a.ops.len() && (a.ops[a.pos].en)(self) }).collect()
    }
    pub fn pending_ops(&self) -> usize { self.actors.iter().map(|a| a.ops.len() - a.pos).sum() }
    pub fn step(&mut self, a: usize) -> R {
        let op = self.actors[a].ops[self.actors[a].pos].clone();
        self.actors[a].pos += 1;
        self.steps += 1;
        lg!(self, "* {}", op.name);
        if self.tick != 0 { let t = self.tick; self.advance(t, t); }
        (op.f)(self)
    }
    /// Run all actors' operations, in every order (`ocost` per deviation from
    /// the first enabled), each either alone or together with the next.
    pub fn interleave(&mut self, ocost: u32, batch: bool, check: &dyn Fn(&mut World) -> R) -> R {
        self.settle()?;
        check(self)?;
        while self.exited.is_none() {
            let en = self.enabled();
            if en.is_empty() { break; }
            let c = self.choose("order", en.len(), ocost);
            self.step(en[c])?;
            if batch {
                while self.exited.is_none() {
                    let en = self.enabled();
                    if en.is_empty() { break; }
                    let c = self.choose("batch", 1 + en.len(), 1);
                    if c == 0 { break; }
                    self.step(en[c - 1])?;
                }
            }
            self.settle()?;
            check(self)?;
        }
        Ok(())
    }

    //---- end

    /// Checks that apply to every execution.
    pub fn finish(&mut self) -> R {
        if let Some(n) = self.notes.first() { return Err(n.clone()); }
        if !self.allow_panic {
            let e = self.stderr();
            let t = String::from_utf8_lossy(&e);
            if let Some(p) = t.find("panicked at") {
                let l: String = t[p..].chars().take(300).collect::<String>().replace('\n', " ");
                return Err(format!("procstar failed internally: {l}"));
            }
        }
        if let Some(s) = self.exited { if s & 127 != 0 { return Err(format!("procstar was killed by signal {}", s & 127)); } if s >> 8 == 101 && !self.allow_panic { return Err("procstar crashed".into()); } }
        Ok(())
    }
    pub fn end(mut self) -> (Vec<Dec>, Vec<u64>, u64, Vec<String>) {
        if self.started && self.exited.is_none() {
            let fd = std::mem::replace(&mut self.ctl, Fd(-1));
            drop(fd);
            for k in &mut self.kids { k.ch = None; k.grand.clear(); }
            loop {
                let p = poll_in(&[self.srv.sock.0], 3000);
                if !p[0] { self.kill_app(); break; }
                match recv(self.srv.sock.0) { Ok(Some((h, _, _))) if h.ty == M_EXITED => break, Ok(Some(_)) => {}, x => panic!("no exit report: {x:?}") }
            }
        }
        for k in &mut self.kids { k.ch = None; k.grand.clear(); }
        if self.started { self.srv.clean(); }
        for t in &self.temps { if t.starts_with("/tmp/procstar-capture-") { let _ = std::fs::remove_file(t); } }
        if self.keep { let e = String::from_utf8_lossy(&self.stderr()).to_string(); if !e.is_empty() { self.log.push(format!("stderr: {e}")); } }
        (std::mem::take(&mut self.ch.trace), self.states, self.steps, self.log)
    }
}

impl<'a> World<'a> {
    /// Send a request over a websocket connection.
    pub fn req(&mut self, i: usize, j: J) { let v = V::from_json(&j); self.ws_send(i, &v); }
    /// Send a request, and return the messages that result.
    pub fn request(&mut self, i: usize, j: J) -> R<Vec<J>> {
        self.ws_new(i);
        self.req(i, j);
        self.settle()?;
        Ok(self.ws_new(i).iter().map(|v| v.json()).collect())
    }
}
