//! What procstar ought to report, worked out independently from the specs and
//! from what the environment did.
use crate::engine::R;
use crate::world::{Kid, Op, Phase, World};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tgt { Base(i32), Null(i32), File(String, i32), Mem(i32), Temp(i32), PipeW(String, i32), PipeR(String, i32) }

pub fn fdnum(s: &str) -> Option<i32> { match s { "stdin" => Some(0), "stdout" => Some(1), "stderr" => Some(2), x => x.parse().ok() } }
pub fn fdname(n: i32) -> String { match n { 0 => "stdin".into(), 1 => "stdout".into(), 2 => "stderr".into(), n => n.to_string() } }

fn oflags(flag: &str, fd: i32) -> i32 {
    use libc::*;
    match flag {
        "Default" => match fd { 0 => O_RDONLY, 1 | 2 => O_WRONLY, _ => O_RDWR },
        "Read" => O_RDONLY,
        "Append" | "CreateAppend" => O_WRONLY | O_APPEND,
        "ReadWrite" => O_RDWR,
        _ => O_WRONLY,
    }
}

#[derive(Clone, Debug)]
pub struct Cap { pub mem: bool, pub text: bool, pub attached: bool }
#[derive(Clone, Debug)]
pub struct PM {
    pub spec: J,
    pub table: BTreeMap<i32, Tgt>,
    pub caps: BTreeMap<i32, Cap>,
    pub names: Vec<i32>,
    pub bad: bool,               // fd setup must fail
}
impl PM {
    pub fn new(id: &str, spec: &J, base: &[i32]) -> PM {
        let mut t: BTreeMap<i32, Tgt> = base.iter().map(|f| (*f, Tgt::Base(*f))).collect();
        let (mut caps, mut names, mut bad) = (BTreeMap::new(), vec![], false);
        for e in spec["fds"].as_array().cloned().unwrap_or_default() {
            let n = fdnum(e[0].as_str().unwrap()).unwrap();
            names.push(n);
            let f = &e[1];
            if f == "inherit" {
            } else if f == "close" {
                t.remove(&n);
            } else if f == "pipe-write" { t.insert(n, Tgt::PipeW(id.to_string(), n));
            } else if let Some(x) = f.get("null") { t.insert(n, Tgt::Null(oflags(x["flags"].as_str().unwrap_or("Default"), n)));
            } else if let Some(x) = f.get("file") { t.insert(n, Tgt::File(x["path"].as_str().unwrap().to_string(), oflags(x["flags"].as_str().unwrap_or("Default"), n)));
            } else if let Some(x) = f.get("dup") {
                match t.get(&(x["fd"].as_i64().unwrap() as i32)).cloned() { Some(v) => { t.insert(n, v); } None => bad = true }
            } else if let Some(x) = f.get("pipe-read") { t.insert(n, Tgt::PipeR(x["proc_id"].as_str().unwrap().into(), fdnum(x["fd"].as_str().unwrap()).unwrap()));
            } else if let Some(x) = f.get("capture") {
                let mem = x["mode"] == "memory";
                caps.insert(n, Cap { mem, text: x["encoding"] == "utf-8", attached: x["attached"] != false });
                t.insert(n, if mem { Tgt::Mem(n) } else { Tgt::Temp(n) });
            } else { panic!("fd spec {f}"); }
        }
        PM { spec: spec.clone(), table: t, caps, names, bad }
    }
    /// The capture fd to which writes on `fd` go.
    pub fn stream(&self, fd: i32) -> Option<i32> { match self.table.get(&fd) { Some(Tgt::Mem(n)) | Some(Tgt::Temp(n)) => Some(*n), _ => None } }
}

/// Known facts about processes at one time.
#[derive(Clone, Default, Debug)]
pub struct Snap { pub dead: BTreeMap<String, bool>, pub execd: BTreeMap<String, bool>, pub out: BTreeMap<(String, i32), Vec<u8>>, pub ids: Vec<String>, pub kid: BTreeMap<String, usize> }

#[derive(Default)]
pub struct Model {
    pub procs: BTreeMap<String, PM>,
    pub out: BTreeMap<(String, i32), Vec<u8>>,
    pub seq: u32,
    pub optional: std::collections::BTreeSet<String>,  // may be missing from the results
    pub lenient: bool,          // starts may fail for want of a resource
    pub lo: Snap,               // at the last quiescence
    pub reqs: Vec<(usize, String, Snap)>,   // outstanding result requests
    pub expect: Vec<(usize, Vec<u16>)>,     // outstanding other requests, and the statuses they may have
}

pub fn parse_time(s: &str) -> Option<i64> {
    // 2023-11-14T22:13:20.123456789+00:00
    let b = s.as_bytes();
    if b.len() < 20 || b[4] != b'-' || b[10] != b'T' { return None; }
    let n = |a: usize, z: usize| s.get(a..z)?.parse::<i64>().ok();
    let (y, m, d, hh, mm, ss) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    let (yy, mp) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
    let days = 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (153 * mp + 2) / 5 + d - 1 - 719468;
    let mut r = &s[19..];
    let mut ns = 0;
    if let Some(t) = r.strip_prefix('.') {
        let k = t.find(|c: char| !c.is_ascii_digit())?;
        ns = format!("{:0<9}", &t[..k])[..9].parse::<i64>().ok()?;
        r = &t[k..];
    }
    if r != "Z" && r != "+00:00" { return None; }
    Some((days * 86400 + hh * 3600 + mm * 60 + ss) * 1_000_000_000 + ns)
}

pub const ABBREV: [&str; 32] = ["", "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGBUS", "SIGFPE", "SIGKILL", "SIGUSR1", "SIGSEGV", "SIGUSR2", "SIGPIPE",
    "SIGALRM", "SIGTERM", "SIGSTKFLT", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU", "SIGURG", "SIGXCPU", "SIGXFSZ", "SIGVTALRM", "SIGPROF", "SIGWINCH",
    "SIGIO", "SIGPWR", "SIGSYS"];

pub fn capture(mode: &str, enc: Option<&str>, att: bool) -> J { json!({"capture": {"mode": mode, "encoding": enc, "attached": att}}) }
/// A process with the given fds, whose executable and argv[0] carry its ID.
pub fn pspec(id: &str, fds: &[(&str, J)]) -> J {
    let mut f = vec![json!(["stdin", {"null": {}}])];
    if !fds.iter().any(|x| x.0 == "stdin" || x.0 == "0") {} else { f.clear(); }
    f.extend(fds.iter().map(|(n, s)| json!([n, s])));
    json!({"exe": format!("/px/{id}"), "argv": [id], "fds": f})
}

pub fn unb64(s: &str) -> Option<Vec<u8>> { use base64::Engine; base64::engine::general_purpose::STANDARD.decode(s).ok() }

pub fn pat(tag: &str, seq: u32, len: usize) -> Vec<u8> {
    let mut v = format!("<{tag}{seq}>").into_bytes();
    let mut x = seq.wrapping_mul(2654435761).wrapping_add(tag.bytes().map(|b| b as u32).sum());
    while v.len() < len { x = x.wrapping_mul(1664525).wrapping_add(1013904223); v.push(b'A' + ((x >> 24) % 58) as u8); }
    v.truncate(len);
    v
}

impl<'a> World<'a> {
    /// The latest child running as `id`.
    pub fn kid(&self, id: &str) -> Option<usize> {
        self.kids.iter().rposition(|k| k.exec.as_ref().map(|x| x.argv.first().map(|a| a == id.as_bytes()).unwrap_or(false)).unwrap_or(false))
    }
    pub fn running(&self, id: &str) -> bool { self.kid(id).map(|k| self.alive(k)).unwrap_or(false) }
    pub fn expect_procs(&mut self, specs: &J) {
        for (id, s) in specs.as_object().unwrap() {
            let base: Vec<i32> = (0..3 + self.conf.extra.len() as i32).collect();
            let pm = PM::new(id, s, &base);
            for n in pm.caps.keys() { self.m.out.insert((id.clone(), *n), vec![]); }
            self.m.procs.insert(id.clone(), pm);
        }
    }
    pub fn snap(&self) -> Snap {
        Snap {
            dead: self.m.procs.keys().map(|id| (id.clone(), self.kid(id).map(|k| self.kids[k].phase == Phase::Dead).unwrap_or(false))).collect(),
            execd: self.m.procs.keys().map(|id| (id.clone(), self.kid(id).map(|k| self.kids[k].execd).unwrap_or(false))).collect(),
            out: self.m.out.clone(),
            ids: self.m.procs.keys().cloned().collect(),
            kid: self.m.procs.keys().filter_map(|id| Some((id.clone(), self.kid(id)?))).collect(),
        }
    }
    /// Start processes over HTTP (without waiting).
    pub fn post(&mut self, specs: &J) -> usize { self.expect_procs(specs); self.http("POST", "/procs", Some(&json!({"specs": specs}))) }
    /// Start processes over HTTP; they must start.
    pub fn start_procs(&mut self, specs: &J) -> R {
        let i = self.post(specs);
        self.settle()?;
        let r = self.take(i)?;
        if r.status != 200 { return Err(format!("POST /procs: status {}: {}", r.status, String::from_utf8_lossy(&r.body))); }
        Ok(())
    }
    /// A process writes `len` bytes of pattern to its fd.
    pub fn emit(&mut self, id: &str, fd: i32, len: usize) -> R {
        self.m.seq += 1;
        let p = pat(id, self.m.seq, len);
        self.emit_bytes(id, fd, &p)
    }
    pub fn emit_bytes(&mut self, id: &str, fd: i32, p: &[u8]) -> R {
        let k = self.kid(id).ok_or("no such process")?;
        let (n, e) = self.kid_write(k, fd, p);
        if e != 0 && e != libc::EAGAIN { return Err(format!("process {id} cannot write to its fd {fd}: errno {e}")); }
        if let Some(s) = self.m.procs.get(id).and_then(|m| m.stream(fd)) { self.m.out.entry((id.to_string(), s)).or_default().extend_from_slice(&p[..n]); }
        Ok(())
    }
    /// Children that are dead must have been reaped by now.
    pub fn check_reaped(&mut self) -> R {
        for k in &self.kids {
            if k.phase == Phase::Dead && k.reaped.is_none() && self.exited.is_none() { return Err(format!("process {} terminated but procstar has not noticed", k.name())); }
            if let (Some(a), Some((b, _, _))) = (k.status, k.reaped) { if a != b { return Err("status mismatch in harness".into()); } }
        }
        if let Some((p, s)) = self.badkills.first() { return Err(format!("procstar sent signal {s} to pid {p}, which is no longer a process of its own")); }
        Ok(())
    }

    /// Compare a reported result with the facts, between `lo` and now.
    pub fn check_res(&self, id: &str, j: &J, lo: &Snap) -> R {
        let e = |m: String| -> R { Err(format!("result of process {id}: {m}")) };
        let pid = j["pid"].as_i64().unwrap_or(-1) as i32;
        if self.m.lenient && pid <= 0 {
            if j["state"] != "error" || j["errors"].as_array().map(|a| a.is_empty()).unwrap_or(true) || !j["status"].is_null() { return e(format!("without a pid, state {} with errors {}", j["state"], j["errors"])); }
            return Ok(());
        }
        let Some(k) = self.kids.iter().rposition(|k| k.pid == pid) else { return e(format!("pid {pid} is no child's")); };
        let kid: &Kid = &self.kids[k];
        let pm = &self.m.procs[id];
        if let Some(x) = &kid.exec { if x.argv.first().map(|a| a != id.as_bytes()).unwrap_or(false) && pm.spec["argv"][0] == id { return e(format!("pid {pid} is not this process's")); } }
        let state = j["state"].as_str().unwrap_or("");
        let errs = j["errors"].as_array().map(|a| a.len()).unwrap_or(0);
        let again = lo.kid.get(id).map(|x| *x != k).unwrap_or(false);  // another of this ID has started since
        let was_dead = !again && lo.dead.get(id).copied().unwrap_or(false);
        let is_dead = kid.phase == Phase::Dead;
        let over = !j["status"].is_null();
        if kid.failed {
            if was_dead && (state != "error" || errs == 0) { return e(format!("state {state:?} with {errs} errors, though it could not be started")); }
            if state == "error" && errs == 0 { return e("state error without an error message".into()); }
        } else {
            if errs != 0 { return e(format!("errors {}", j["errors"])); }
            let want: &[&str] = match (was_dead, is_dead) { (true, _) => &["terminated"], (false, true) => &["running", "terminated"], _ => &["running"] };
            if !want.contains(&state) { return e(format!("state {state:?}, expected {want:?}")); }
            if over != (state == "terminated") { return e("status and state disagree".into()); }
        }
        // Status.
        if over {
            let Some((st, rm, rw)) = kid.reaped else { return e("has a status but was not waited for".into()) };
            let code = if st & 127 == 0 { Some((st >> 8) & 255) } else { None };
            let sig = if st & 127 == 0 { None } else { Some(st & 127) };
            let s = &j["status"];
            if s["status"] != st || s["exit_code"] != json!(code) || s["signum"] != json!(sig) || s["core_dump"] != json!(st & 127 != 0 && st & 128 != 0) {
                return e(format!("status {s}, but wait status was {st:#x}"));
            }
            match sig {
                None => if !s["signal"].is_null() { return e(format!("signal {}", s["signal"])); },
                Some(n) => { if n < 32 && n != 16 && s["signal"] != ABBREV[n as usize] { return e(format!("signal name {} for {n}", s["signal"])); } }
            }
            let want = json!({"utime": 3.25, "stime": 1.5, "maxrss": 4321 * 1024, "minflt": 11, "majflt": 22, "nswap": 33, "inblock": 44, "oublock": 55, "nvcsw": 66, "nivcsw": 77});
            if j["rusage"] != want { return e(format!("rusage {}", j["rusage"])); }
            let stop = j["times"]["stop"].as_str().and_then(parse_time);
            if stop != Some(rw) { return e(format!("stop time {}, but it was noticed at {rw}", j["times"]["stop"])); }
            let el = j["times"]["elapsed"].as_f64().unwrap_or(-1.);
            if (el - (rm - kid.fork_mono) as f64 / 1e9).abs() > 2e-6 { return e(format!("elapsed {el}, expected {}", (rm - kid.fork_mono) as f64 / 1e9)); }
            if !j["proc_statm"].is_null() { return e("proc_statm of a terminated process".into()); }
        } else {
            if !j["rusage"].is_null() || !j["times"]["stop"].is_null() { return e("rusage or stop time before termination".into()); }
            let el = j["times"]["elapsed"].as_f64().unwrap_or(-1.);
            let now = (self.mono - kid.fork_mono) as f64 / 1e9;
            if self.tick == 0 && (el - now).abs() > 2e-6 { return e(format!("elapsed {el}, expected {now}")); }
        }
        if j["times"]["start"].as_str().and_then(parse_time) != Some(kid.fork_wall) { return e(format!("start time {}, expected {}", j["times"]["start"], kid.fork_wall)); }
        if self.tick == 0 && j["times"]["now"].as_str().and_then(parse_time) != Some(self.wall) { return e(format!("present time {}", j["times"]["now"])); }
        // Statistics are of the process itself.
        if kid.execd && !again && lo.execd.get(id).copied().unwrap_or(false) && (!is_dead || over) {
            let ps = &j["proc_stat"];
            if ps["pid"] != pid || ps["session"] != pid || ps["pgrp"] != pid { return e(format!("proc_stat {ps}")); }
        }
        // Fds.
        let names: Vec<String> = j["fds"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
        let mut want: Vec<String> = pm.names.iter().map(|n| fdname(*n)).collect();
        want.sort(); want.dedup();
        let mut have = names.clone(); have.sort();
        if !have.iter().all(|i| want.contains(i)) || !want.iter().all(|i| have.contains(i) || self.m.optional.contains(i)) { return e(format!("fds {have:?}, expected {want:?}")); }
        for n in &pm.names {
            let f = &j["fds"][fdname(*n)];
            if self.m.lenient && kid.failed && f.is_null() { continue; }
            let Some(c) = pm.caps.get(n) else { if !f.is_null() { return e(format!("fd {n}: {f}, though it is not captured")); } continue };
            let full = self.m.out.get(&(id.to_string(), *n)).cloned().unwrap_or_default();
            let least = if over { full.len() } else { lo.out.get(&(id.to_string(), *n)).map(|v| v.len()).unwrap_or(0) };
            let enc = if c.text { "utf-8" } else { "base64" };
            if f["encoding"] != enc { return e(format!("fd {n}: encoding {}", f["encoding"])); }
            if !c.attached {
                if f["type"] != "detached" { return e(format!("fd {n}: type {} though detached", f["type"])); }
                let len = f["length"].as_i64().unwrap_or(-1);
                if len < least as i64 || len > full.len() as i64 { return e(format!("fd {n}: length {len}, expected {least} to {}", full.len())); }
                continue;
            }
            if f["type"] != if c.text { "text" } else { "data" } { return e(format!("fd {n}: type {}", f["type"])); }
            let ok = if c.text {
                let t = f["text"].as_str().unwrap_or("\u{0}\u{0}");
                (least..=full.len()).any(|l| String::from_utf8_lossy(&full[..l]) == t)
            } else {
                match f["data"].as_str().and_then(unb64) { Some(d) => d.len() >= least && d.len() <= full.len() && full[..d.len()] == d[..], None => false }
            };
            if !ok {
                let got = f["text"].as_str().map(|t| t.len()).unwrap_or_else(|| f["data"].as_str().and_then(unb64).map(|d| d.len()).unwrap_or(0));
                return e(format!("fd {n}: output is wrong: {got} bytes reported, {least} to {} written{}", full.len(), if over { " (terminated)" } else { "" }));
            }
        }
        Ok(())
    }
    /// GET /procs, with nothing else happening, and compare everything.
    pub fn check_list(&mut self) -> R {
        let lo = self.snap();
        let d = self.get("/procs")?;
        let m = d["procs"].as_object().ok_or("no procs in response")?.clone();
        let have: Vec<String> = m.keys().cloned().collect();
        let want: Vec<String> = self.m.procs.keys().cloned().collect();
        if !have.iter().all(|i| want.contains(i)) || !want.iter().all(|i| have.contains(i) || self.m.optional.contains(i)) { return Err(format!("processes listed: {have:?}, expected {want:?}")); }
        for (id, j) in &m { self.check_res(id, j, &lo)?; }
        Ok(())
    }
    pub fn check_one(&mut self, id: &str) -> R {
        let lo = self.snap();
        let d = self.get(&format!("/procs/{id}"))?;
        if d["procs"].as_object().map(|m| m.len()) != Some(1) { return Err("not exactly one process in response".into()); }
        self.check_res(id, &d["procs"][id], &lo)
    }
    /// Ask for a result without waiting; `check_pending` looks at the response.
    pub fn ask_one(&mut self, id: &str) {
        let lo = self.m.lo.clone();
        let i = self.http("GET", &format!("/procs/{id}"), None);
        self.m.reqs.push((i, id.to_string(), lo));
    }
    pub fn check_pending(&mut self) -> R {
        for (i, ok) in std::mem::take(&mut self.m.expect) {
            if self.exited.is_some() { continue; }
            let what = self.reqs[i].what.clone();
            let r = self.take(i)?;
            if !ok.contains(&r.status) { return Err(format!("{what}: status {}, expected {ok:?}", r.status)); }
        }
        for (i, id, lo) in std::mem::take(&mut self.m.reqs) {
            if self.exited.is_some() { continue; }
            let r = self.take(i)?;
            if r.status != 200 { return Err(format!("GET /procs/{id}: status {}", r.status)); }
            let d = r.data()?;
            self.check_res(&id, &d["procs"][&id], &lo)?;
        }
        Ok(())
    }
    /// A request whose response must have one of the given statuses.
    pub fn ask(&mut self, method: &str, path: &str, body: Option<&J>, ok: &[u16]) -> usize {
        let i = self.http(method, path, body);
        self.m.expect.push((i, ok.to_vec()));
        i
    }
    pub fn forget(&mut self, id: &str) { self.m.procs.remove(id); self.m.out.retain(|k, _| k.0 != id); }
    /// All processes have been reported dead and can be deleted.
    pub fn delete_all(&mut self) -> R {
        for id in self.m.procs.keys().cloned().collect::<Vec<_>>() {
            let r = self.call("DELETE", &format!("/procs/{id}"), None)?;
            if r.status != 200 { return Err(format!("DELETE /procs/{id}: status {}", r.status)); }
            self.forget(&id);
        }
        Ok(())
    }
    /// The check at each quiescence.
    pub fn quiescent(&mut self) -> R {
        self.check_reaped()?;
        self.check_pending()?;
        self.m.lo = self.snap();
        Ok(())
    }
}
impl Kid { pub fn name(&self) -> String { self.exec.as_ref().and_then(|x| x.argv.first()).map(|a| String::from_utf8_lossy(a).to_string()).unwrap_or_else(|| "?".into()) } }

//---- operations

pub fn op(name: &str, f: impl Fn(&mut World) -> R + 'static) -> Op { Op { name: name.to_string(), f: Rc::new(f), en: Rc::new(|_| true) } }
pub fn op_if(name: &str, en: impl Fn(&World) -> bool + 'static, f: impl Fn(&mut World) -> R + 'static) -> Op { Op { name: name.to_string(), f: Rc::new(f), en: Rc::new(en) } }
pub fn o_write(id: &'static str, fd: i32, len: usize) -> Op { op_if(&format!("{id} writes {len} to fd {fd}"), move |w| w.running(id), move |w| w.emit(id, fd, len)) }
pub fn o_close(id: &'static str, fd: i32) -> Op { op_if(&format!("{id} closes fd {fd}"), move |w| w.running(id), move |w| { let k = w.kid(id).unwrap(); w.kid_close(k, fd); Ok(()) }) }
pub fn o_exit(id: &'static str, code: i32) -> Op { op_if(&format!("{id} exits {code}"), move |w| w.running(id), move |w| { let k = w.kid(id).unwrap(); w.kid_exit(k, code); Ok(()) }) }
pub fn o_raise(id: &'static str, sig: i32) -> Op { op_if(&format!("{id} dies of {sig}"), move |w| w.running(id), move |w| { let k = w.kid(id).unwrap(); w.kid_raise(k, sig); Ok(()) }) }
pub fn o_stop(id: &'static str) -> Op { op_if(&format!("{id} is stopped"), move |w| w.running(id), move |w| { let k = w.kid(id).unwrap(); w.kid_stop(k); Ok(()) }) }
pub fn o_cont(id: &'static str) -> Op { op_if(&format!("{id} is continued"), move |w| w.kid(id).map(|k| w.kids[k].stopped).unwrap_or(false), move |w| { let k = w.kid(id).unwrap(); w.kid_cont(k); Ok(()) }) }
pub fn o_exit_all() -> Op { op("all exit", |w| { for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, (k as i32 * 7) & 255); } } Ok(()) }) }
pub fn o_start(specs: J) -> Op { op(&format!("start {:?}", specs.as_object().unwrap().keys().collect::<Vec<_>>()), move |w| { let i = w.post(&specs); w.m.expect.push((i, vec![200])); Ok(()) }) }
pub fn o_proceed(id: usize) -> Op { op_if(&format!("child #{id} goes on"), move |w| w.kids.len() > id && matches!(w.kids[id].phase, Phase::Pre | Phase::AtExec), move |w| { w.kid_proceed(id); Ok(()) }) }
pub fn o_get(id: &'static str) -> Op { op_if(&format!("ask for {id}"), move |w| w.m.lo.ids.iter().any(|x| x == id) && w.m.procs.contains_key(id), move |w| { w.ask_one(id); Ok(()) }) }

impl<'a> World<'a> {
    /// procstar has printed results and ended: compare them.
    pub fn check_print(&mut self) -> R {
        if self.exited != Some(0) { return Err(format!("procstar has not ended normally: {:?}", self.exited)); }
        let o = self.stdout();
        let j: J = serde_json::from_slice(&o).map_err(|e| format!("printed results are not JSON: {e}"))?;
        self.check_results(&j)
    }
    pub fn check_results(&mut self, j: &J) -> R {
        let lo = self.snap();
        let m = j.as_object().ok_or("no results")?;
        let have: Vec<String> = m.keys().cloned().collect();
        let want: Vec<String> = self.m.procs.keys().cloned().collect();
        if !have.iter().all(|i| want.contains(i)) || !want.iter().all(|i| have.contains(i) || self.m.optional.contains(i)) { return Err(format!("results of {have:?}, expected {want:?}")); }
        for (id, r) in m { self.check_res(id, r, &lo)?; }
        Ok(())
    }
}
