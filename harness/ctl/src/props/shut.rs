//! Shutting down: an independent timed reference, run as a set of possible
//! states next to the program.
use crate::engine::{Scn, R};
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn cap1(id: &str) -> J { pspec(id, &[("stdout", capture("memory", None, true))]) }
fn exe(id: &str) -> J { json!({"exe": format!("/px/{id}"), "argv": [id], "fds": [["stdout", capture("memory", None, true)]]}) }
const MS: i64 = 1_000_000;
const S: i64 = 1000 * MS;
/// Timers may be this late.
const SLACK: i64 = 20 * MS;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum H { No, Wait(i64), Idle(i64), Over }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ref {
    term: [H; 2], quit: H,
    idling: bool, done: bool,
    exit: bool, wait: bool,
    run: BTreeMap<String, bool>,              // true while running
    sent: BTreeMap<String, Vec<i32>>,         // signals sent while running
    robust: BTreeSet<String>,                 // do not end of SIGTERM
    bad: bool,                                // contradicts a response
}
#[derive(Clone, Debug)]
pub enum Ev { Sig(i32), End(String), Del(String), New(String, usize), Req(String, usize), Start(String), Refused }

impl Ref {
    pub fn new(exit: bool, wait: bool) -> Ref { Ref { term: [H::No, H::No], quit: H::No, idling: false, done: false, exit, wait, run: BTreeMap::new(), sent: BTreeMap::new(), robust: BTreeSet::new(), bad: false } }
    fn running(&self) -> bool { self.run.values().any(|r| *r) }
    fn send_all(&mut self, sig: i32) {
        for (id, r) in self.run.iter_mut() {
            if *r {
                self.sent.entry(id.clone()).or_default().push(sig);
                if sig == 9 || !self.robust.contains(id) { *r = false; }
            }
        }
    }
    fn norm(&mut self, now: i64) {
        if self.done { return; }
        let running = self.running();
        for h in self.term.iter_mut() { if matches!(h, H::Wait(_)) && !running { *h = H::Idle(now + 5 * S); } }
        let empty = self.run.is_empty();
        for h in self.term.iter_mut().chain([&mut self.quit]) { if matches!(h, H::Idle(_)) && empty { *h = H::Over; self.done = true; } }
        if self.idling && empty || self.exit && !running || self.wait && empty { self.done = true; }
    }
    /// Time passes to `now`: whatever is due happens, in order.
    fn pass(&mut self, now: i64) {
        loop {
            self.norm(now);
            if self.done { return; }
            let due = self.term.iter().chain([&self.quit]).filter_map(|h| match h { H::Wait(t) | H::Idle(t) => Some(*t), _ => None }).min();
            let Some(t) = due else { return };
            if t > now { return; }
            for i in 0..2 {
                match self.term[i] {
                    H::Wait(d) if d == t => { self.send_all(9); self.term[i] = H::Idle(t + 5 * S); }
                    H::Idle(d) if d == t => { self.term[i] = H::Over; self.done = true; }
                    _ => {}
                }
            }
            if self.quit == H::Idle(t) { self.quit = H::Over; self.done = true; }
        }
    }
    fn apply(&mut self, e: &Ev, now: i64, norm: bool) {
        if self.done { return; }
        match e {
            Ev::Sig(s) => match *s {
                libc::SIGUSR1 => self.idling = true,
                libc::SIGQUIT => if self.quit == H::No { self.send_all(9); self.quit = H::Idle(now + 5 * S); },
                x => { let i = (x == libc::SIGINT) as usize; if self.term[i] == H::No { self.send_all(15); self.term[i] = H::Wait(now + 60 * S); } }
            },
            Ev::End(id) => { if let Some(r) = self.run.get_mut(id) { *r = false; } }
            Ev::Del(id) => { if self.run.get(id) == Some(&false) { self.run.remove(id); } }
            Ev::Start(id) => { if self.idling { self.bad = true; } else { self.run.insert(id.clone(), true); } }
            Ev::Refused => if !self.idling { self.bad = true; },
            Ev::New(..) | Ev::Req(..) => {}
        }
        // Procstar may notice only later that a process has ended.
        if norm { self.norm(now); }
    }
    /// The next times at which something is due.
    fn due(&self) -> Vec<i64> { self.term.iter().chain([&self.quit]).filter_map(|h| match h { H::Wait(t) | H::Idle(t) => Some(*t), _ => None }).collect() }
}

/// What may be the case, given what has happened.
pub struct Track { pub may: BTreeSet<Ref>, evs: Vec<Ev>, pub loose: bool }
pub type Tr = Rc<RefCell<Track>>;
impl Track {
    pub fn new(r: Ref) -> Tr { Rc::new(RefCell::new(Track { may: [r].into(), evs: vec![], loose: false })) }
    pub fn ev(&mut self, e: Ev) { self.evs.push(e); }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); v.push(q); } }
    v
}
/// Add a process to the reference.
pub fn track_proc(t: &Tr, id: &str, robust: bool, running: bool) {
    let mut t = t.borrow_mut();
    t.may = t.may.iter().cloned().map(|mut r| { r.run.insert(id.to_string(), running); if robust { r.robust.insert(id.to_string()); } r }).collect();
}
/// Compare the program with the reference, after everything has settled.
pub fn compare(w: &mut World, t: &Tr) -> R {
    // Timers may be a little late.
    let lim = { let t = t.borrow(); t.may.iter().flat_map(|r| r.due()).filter(|d| (d - w.mono).abs() <= SLACK).max() };
    if let Some(d) = lim { if w.exited.is_none() && w.mono < d + SLACK { let ms = (d + SLACK - w.mono) / MS + 1; w.sleep(ms)?; } }
    let now = w.mono;
    let mut t = t.borrow_mut();
    let mut evs = std::mem::take(&mut t.evs);
    for e in evs.iter_mut() {
        if let Ev::Req(id, i) = e.clone() {
            match &w.reqs[i].rsp {
                Some(r) if r.status == 200 => { w.forget(&id); }
                Some(r) => return Err(format!("DELETE: status {}", r.status)),
                None if w.exited.is_some() => { w.m.optional.insert(id.clone()); }
                None => return Err("no response to a request to delete a process".into()),
            }
            *e = Ev::Del(id);
        }
        let Ev::New(id, i) = e.clone() else { continue };
        match &w.reqs[i].rsp {
            Some(r) if r.status == 200 => *e = Ev::Start(id),
            Some(r) if [400, 403, 409, 422, 503].contains(&r.status) => { *e = Ev::Refused; w.forget(&id); }
            Some(r) => return Err(format!("POST: status {}", r.status)),
            None if w.exited.is_some() => if w.kid(&id).is_some() { w.m.optional.insert(id.clone()); *e = Ev::Start(id) } else { w.forget(&id) },
            None => return Err("no response to a request to start a process".into()),
        }
    }
    let mut may = BTreeSet::new();
    for r in &t.may {
        for p in perms(evs.len()) {
            // Time passes first, or after.
            for how in 0..4 {
                let mut r = r.clone();
                if how & 1 == 0 { r.pass(now); }
                for i in &p { r.apply(&evs[*i], now, how & 2 == 0); }
                r.pass(now);
                may.insert(r);
                if evs.is_empty() { break; }
            }
        }
    }
    let all = may.clone();
    let done = w.exited.is_some();
    let loose = t.loose;
    let mut why = String::new();
    may.retain(|r| {
        if r.bad { why = "a request to start a process was refused though procstar is active, or the opposite".into(); return false; }
        if r.done != done { why = if done { "procstar has exited, though it should not have".into() } else { "procstar has not exited".into() }; return false; }
        for (id, running) in &r.run {
            let Some(k) = w.kid(id) else { continue };
            let got: Vec<i32> = w.kids[k].got.iter().cloned().filter(|s| ![libc::SIGSTOP, libc::SIGCONT].contains(s)).collect();
            let want = r.sent.get(id).cloned().unwrap_or_default();
            // With more than one signal at work, one that has ended but has not
            // been waited for may be sent another.
            let ok = if loose { let mut g = got.clone(); want.iter().all(|s| g.iter().position(|x| x == s).map(|i| g.remove(i)).is_some()) && (g.is_empty() || !*running) } else { got == want };
            if !ok { why = format!("process {id} was sent signals {got:?}, expected {want:?}"); return false; }
            if !done && *running != (w.kids[k].phase != Phase::Dead) { why = format!("process {id} {}", if *running { "has ended" } else { "still runs" }); return false; }
            if done && !*running && w.kids[k].phase != Phase::Dead { why = format!("process {id} is left running"); return false; }
        }
        true
    });
    if may.is_empty() {
        let near = all.iter().next().map(|r| format!("{r:?}")).unwrap_or_default();
        return Err(format!("{why} ({} ms after the start; {})", (now - MONO0) / MS, near));
    }
    t.may = may;
    if let Some(s) = w.exited { if s != 0 { return Err(format!("procstar ended with status {s:#x}")); } }
    else if !w.badkills.is_empty() { return Err("a signal was sent to something that is not a process of procstar's".into()); }
    Ok(())
}
/// Operations, told to the reference too.
fn o_sig(t: &Tr, s: i32) -> Op { let t = t.clone(); op(&format!("signal {s}"), move |w| { t.borrow_mut().ev(Ev::Sig(s)); w.raise(s); Ok(()) }) }
fn o_end(t: &Tr, id: &'static str) -> Op { let t = t.clone(); op_if(&format!("{id} ends"), move |w| w.running(id), move |w| { t.borrow_mut().ev(Ev::End(id.into())); let k = w.kid(id).unwrap(); w.kid_exit(k, 3); Ok(()) }) }
/// Delete a process that has been dead for sure.
fn o_del(t: &Tr, id: &'static str) -> Op {
    let (t, t2) = (t.clone(), t.clone());
    op_if(&format!("delete {id}"), move |w| w.m.lo.dead.get(id) == Some(&true) && w.m.procs.contains_key(id) && !t2.borrow().evs.iter().any(|e| matches!(e, Ev::Req(x, _) if x == id)), move |w| {
        let i = w.http("DELETE", &format!("/procs/{id}"), None);
        t.borrow_mut().ev(Ev::Req(id.into(), i));
        Ok(())
    })
}
fn o_pass(ms: i64) -> Op { op_if(&format!("{ms} ms pass"), |w| !w.expire, move |w| w.sleep(ms)) }
fn o_next() -> Op { op_if("time to the next timer", |w| w.timeout >= 0, |w| { w.expire(); w.timeout = -1; Ok(()) }) }
/// Start another process; refused if procstar says so.
fn o_new(t: &Tr, id: &'static str) -> Op {
    let t = t.clone();
    op_if(&format!("start {id}"), move |w| w.listen.is_some() && !w.m.procs.contains_key(id), move |w| {
        let i = w.post(&json!({id: cap1(id)}));
        t.borrow_mut().ev(Ev::New(id.into(), i));
        Ok(())
    })
}

fn check(w: &mut World, t: &Tr, was: bool) -> R {
    compare(w, t)?;
    if w.exited.is_some() {
        // Requests may have been cut off by the exit.
        if !was { w.m.expect.clear(); w.m.reqs.clear(); }
        return Ok(());
    }
    w.quiescent()?;
    if w.listen.is_some() { w.check_list()?; }
    Ok(())
}
fn kinds(w: &mut World, n: usize) -> Vec<usize> { (0..n).map(|_| w.choose("kind of process", 5, 0)).collect() }
/// Start processes of various kinds: 0 ends of SIGTERM, 1 ignores it, 2 has
/// ended, 3 could not be started, 4 is stopped.
fn start_kinds(w: &mut World, t: &Tr, ids: &[&'static str], kinds: &[usize], via_stdin: bool) -> R {
    let bad: Vec<String> = ids.iter().zip(kinds).filter(|x| *x.1 == 3).map(|x| x.0.to_string()).collect();
    w.exec_errno = Some(Rc::new(move |x| if bad.iter().any(|b| x.argv[0] == b.as_bytes()) { libc::EACCES } else { 0 }));
    let s = J::Object(ids.iter().map(|id| (id.to_string(), exe(id))).collect());
    if via_stdin { w.expect_procs(&s); w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap()); w.settle()?; }
    else if !ids.is_empty() { w.settle()?; w.start_procs(&s)?; }
    else { w.settle()?; }
    for (id, k) in ids.iter().zip(kinds) {
        if *k == 3 { track_proc(t, id, false, false); continue; }
        let x = w.kid(id).ok_or_else(|| format!("{id} was not started"))?;
        match k { 1 => { w.kid_ignore(x, 15); } 2 => { w.kid_exit(x, 5); } 4 => { w.kid_stop(x); } _ => {} }
        track_proc(t, id, *k == 1 || *k == 4, *k != 2);
    }
    w.settle()?;
    w.quiescent()
}

/// All ways in which a shutdown by `sigs` proceeds.
fn explore(name: &str, args: Vec<&'static str>, sigs: Vec<i32>, n: usize, depth: usize, bound: u32, extra: bool) -> Scn {
    let mut a = args.clone();
    a.push("--serve");
    Scn::new(name, Conf::new(&a), bound, move |w| {
        let t = Track::new(Ref::new(false, args.contains(&"--wait")));
        t.borrow_mut().loose = sigs.len() > 1;
        let ids: Vec<&'static str> = ["a", "b", "c"][..n].to_vec();
        let ks = kinds(w, n);
        if args.contains(&"--wait") && n == 0 { return Ok(()); }
        start_kinds(w, &t, &ids, &ks, args.contains(&"-"))?;
        check(w, &t, false)?;
        w.actor(vec![o_pass(500)]);
        // When the signals arrive.
        let mut so: Vec<Op> = vec![];
        let when = w.choose("between the signals", if sigs.len() > 1 { 4 } else { 1 }, 0);
        for (i, s) in sigs.iter().enumerate() {
            if i > 0 { match when { 0 => {} 1 => so.push(o_pass(1700)), 2 => so.push(o_pass(58_000)), _ => so.push(op("time to the next timer, if any", |w| { if w.timeout >= 0 { w.expire(); w.timeout = -1; } Ok(()) })) } }
            so.push(o_sig(&t, *s));
        }
        let ns = so.len();
        let _ = ns;
        w.actors[0].ops = so;
        for id in &ids { w.actor(vec![o_end(&t, id), o_del(&t, id)]); w.actor(vec![o_del(&t, id)]); }
        if extra { w.actor(vec![o_new(&t, "x"), o_end(&t, "x"), o_del(&t, "x")]); }
        let mut tm = vec![];
        for i in 0..depth { tm.push(if i % 3 == 2 { o_pass(4000) } else { o_next() }); }
        w.actor(tm);
        let t2 = t.clone();
        w.interleave(1, true, &move |w| check(w, &t2, false))?;
        // Let it come to its end.
        for _ in 0..60 {
            if w.exited.is_some() || w.timeout < 0 { break; }
            w.expire();
            w.settle()?;
            check(w, &t, false)?;
        }
        if w.exited.is_none() {
            // Only with SIGUSR1 is there no time limit.
            if sigs.iter().any(|s| *s != libc::SIGUSR1) { return Err("procstar does not exit".into()); }
            for id in ["a", "b", "c", "x"] { let Some(k) = w.kid(id) else { continue }; if w.kids[k].stopped { w.kid_cont(k); } if w.alive(k) { t.borrow_mut().ev(Ev::End(id.into())); w.kid_exit(k, 0); } }
            w.settle()?;
            check(w, &t, false)?;
            let ids: Vec<String> = w.m.procs.keys().cloned().collect();
            for id in ids {
                if w.exited.is_some() { return Err("procstar exits though processes have not been deleted".into()); }
                t.borrow_mut().ev(Ev::Del(id.clone()));
                let i = w.http("DELETE", &format!("/procs/{id}"), None);
                w.settle()?;
                w.forget(&id);
                if w.exited.is_none() { let r = w.take(i)?; if r.status != 200 { return Err(format!("DELETE: status {}", r.status)); } }
                check(w, &t, false)?;
            }
            if w.exited.is_none() { return Err("procstar does not exit though all processes have been deleted".into()); }
        }
        Ok(())
    })
}

pub fn term(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for (name, s) in [("SIGTERM", libc::SIGTERM), ("SIGINT", libc::SIGINT)] {
        for n in 0..(if deep { 4 } else { 3 }) {
            let b = if deep { [4, 5, 4, 3][n] } else if name == "SIGTERM" { [3, 3, 2][n] } else { [2, 2, 1][n] };
            v.push(explore(&format!("{name} with {n} processes"), vec![], vec![s], n, 3, b, true));
        }
    }
    v.push(explore("SIGTERM, waiting", vec!["--wait", "-"], vec![libc::SIGTERM], 1, 3, if deep { 5 } else { 3 }, true));
    v.push(during_start("SIGTERM", libc::SIGTERM, deep));
    v.push(printing("SIGTERM", libc::SIGTERM, deep));
    v.push(immune("SIGTERM", libc::SIGTERM, deep));
    v.push(immune("SIGINT", libc::SIGINT, deep));
    v
}
pub fn quit(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for n in 0..(if deep { 4 } else { 3 }) {
        let b = if deep { [4, 5, 4, 3][n] } else { [3, 4, 2][n] };
        v.push(explore(&format!("SIGQUIT with {n} processes"), vec![], vec![libc::SIGQUIT], n, 3, b, true));
    }
    v.push(explore("SIGQUIT, waiting", vec!["--wait", "-"], vec![libc::SIGQUIT], 1, 3, if deep { 5 } else { 3 }, true));
    v.push(during_start("SIGQUIT", libc::SIGQUIT, deep));
    v.push(printing("SIGQUIT", libc::SIGQUIT, deep));
    v.push(immune("SIGQUIT", libc::SIGQUIT, deep));
    v
}
pub fn idle(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for n in 0..(if deep { 4 } else { 3 }) {
        let b = if deep { [4, 5, 4, 3][n] } else { [3, 4, 2][n] };
        v.push(explore(&format!("SIGUSR1 with {n} processes"), vec![], vec![libc::SIGUSR1], n, 0, b, true));
    }
    v.push(explore("SIGUSR1 twice", vec![], vec![libc::SIGUSR1, libc::SIGUSR1], 1, 1, if deep { 4 } else { 2 }, true));
    v.push(during_start("SIGUSR1", libc::SIGUSR1, deep));
    // New processes are refused everywhere, at any time.
    v.push(Scn::new("start requests around SIGUSR1", Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]).mask(&[K_SELECT]), if deep { 3 } else { 2 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": cap1("a")}))?;
        w.quiescent()?;
        let sigd = Rc::new(RefCell::new((false, false)));   // raised, and settled since
        let (s1, s2, s3) = (sigd.clone(), sigd.clone(), sigd.clone());
        w.actor(vec![op("SIGUSR1", move |w| { s1.borrow_mut().0 = true; w.raise(10); Ok(()) })]);
        w.actor(vec![op("POST", move |w| {
            let s = json!({"h": cap1("h")});
            let (r, st) = *s2.borrow();
            let ok: &[u16] = if st { &[400, 403, 409, 422, 503] } else if r { &[200, 400, 403, 409, 422, 503] } else { &[200, 400, 403, 409, 422, 503] };
            w.data.insert("http".into(), w.reqs.len() as i64);
            w.ask("POST", "/procs", Some(&json!({"specs": s})), ok);
            Ok(())
        })]);
        w.actor(vec![op("request by the agent server", move |w| {
            w.data.insert("agent".into(), s3.borrow().1 as i64);
            w.req(0, json!({"type": "ProcStartRequest", "specs": {"g": cap1("g")}}));
            Ok(())
        })]);
        let s4 = sigd.clone();
        w.interleave(1, true, &move |w| {
            let r = s4.borrow().0;
            if r { s4.borrow_mut().1 = true; }
            w.check_reaped()?;
            w.check_pending()?;
            Ok(())
        })?;
        let errs = w.ws[0].got.iter().filter(|v| v.json()["type"] == "RequestError").count();
        let (h, g) = (w.kid("h").is_some(), w.kid("g").is_some());
        if errs == 1 && g || errs == 0 && !g { return Err(format!("{errs} error messages, though the process was {}started", if g { "" } else { "not " })); }
        if w.data["agent"] == 1 && g { return Err("a process was started for the agent server after SIGUSR1".into()); }
        let i = w.data["http"] as usize;
        let st = w.reqs[i].rsp.as_ref().map(|r| r.status).unwrap_or(0);
        if h != (st == 200) { return Err(format!("status {st}, though the process was {}started", if h { "" } else { "not " })); }
        let told = w.ws[0].got.iter().filter(|v| { let j = v.json(); j["type"] == "ShutDown" && j["shutdown_state"] == "idling" }).count();
        if told != 1 { return Err(format!("the agent server was told of the shutdown {told} times")); }
        // No signals, and no exit.
        if w.exited.is_some() { return Err("procstar exited".into()); }
        if !w.kills.is_empty() { return Err("signals were sent".into()); }
        for id in ["a", "g", "h"] { if w.running(id) { if w.exited.is_some() { return Err("procstar exited".into()); } let k = w.kid(id).unwrap(); w.kid_exit(k, 0); w.settle()?; } }
        for id in ["a", "g", "h"] { if w.kid(id).is_some() {
            if w.exited.is_some() { return Err("procstar exits before all are deleted".into()); }
            w.req(0, json!({"type": "ProcDeleteRequest", "proc_id": id})); w.settle()?;
        } }
        if w.exited != Some(0) { return Err(format!("procstar does not exit: {:?}", w.exited)); }
        Ok(())
    }));
    v
}
pub fn mixed(deep: bool) -> Vec<Scn> {
    let (t, i, q, u) = (libc::SIGTERM, libc::SIGINT, libc::SIGQUIT, libc::SIGUSR1);
    let mut v = vec![];
    let all = [("TERM", t), ("INT", i), ("QUIT", q), ("USR1", u)];
    for (a, x) in all {
        for (b, y) in all {
            v.push(explore(&format!("{a} then {b}"), vec![], vec![x, y], 1, 2, if deep { 3 } else { 1 }, deep));
        }
    }
    for (n, s) in [("USR1, TERM, QUIT", vec![u, t, q]), ("QUIT, TERM, USR1", vec![q, t, u]), ("TERM, USR1, INT", vec![t, u, i]), ("TERM three times", vec![t, t, t]), ("QUIT three times", vec![q, q, q]), ("TERM, QUIT, USR1", vec![t, q, u])] {
        v.push(explore(n, vec![], s, if deep { 2 } else { 1 }, 2, if deep { 2 } else { 1 }, false));
    }
    // A signal at each moment while procstar is about to exit, for whatever reason.
    for (mode, args) in [("serve", vec!["--serve", "-"]), ("print", vec!["--serve", "--print", "-"]), ("wait", vec!["--serve", "--wait", "-"]), ("agent", vec!["--wait", "--agent", "--agent-host", "127.0.0.1", "-"])] {
    v.push(Scn::new(&format!("a signal at each step of a shutdown, {mode}"), Conf::new(&args).mask(if deep { &[K_EPOLL, K_WAIT, K_READ, K_WRITE, K_CLOSE] } else { &[K_EPOLL, K_WAIT] }), 1, move |w| {
        let n = w.choose("processes", 3, 0);
        let s = J::Object(["a", "b"].iter().take(n).map(|id| (id.to_string(), cap1(id))).collect());
        w.expect_procs(&s);
        w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap());
        let first = [0, t, q, u][w.choose("first", 4, 0)];
        let second = [t, q, u, i][w.choose("second", 4, 0)];
        let at = w.choose("at", if deep { 60 } else { 10 }, 0);
        let c = Rc::new(std::cell::Cell::new(-1));
        let c2 = c.clone();
        w.settle()?;
        if w.exited.is_some() { return Ok(()); }
        // Which of its tasks procstar turns to first depends on how often it did before.
        if mode != "agent" { for _ in 0..w.choose("requests before", if deep { 4 } else { 2 }, 0) { w.get("/procs")?; } }
        w.hook = Some(Rc::new(move |w, _, _, child| { if child { return Ok(0); } c2.set(c2.get() + 1); if c2.get() == at as i32 { w.raise(second); } Ok(0) }));
        if first != 0 { w.raise(first); w.settle()?; }
        for id in ["a", "b"] { if w.running(id) && w.exited.is_none() { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); w.settle()?; } }
        if c.get() < at as i32 && mode == "serve" && (first == 0 || n == 0) { return Ok(()); }
        let must = first != 0 || mode == "print" || c.get() >= at as i32;
        if mode != "wait" && mode != "agent" && must && (first, second) != (u, u) {
            // The time limits, with nothing deleted.
            if [first, second].iter().any(|s| ![0, u].contains(s)) || mode == "print" {
                for _ in 0..80 { if w.exited.is_some() || w.timeout < 0 { break; } w.expire(); w.settle()?; }
                if w.exited != Some(0) && c.get() >= at as i32 { return Err(format!("after {first} and {second}, procstar has not exited: {:?}", w.exited)); }
            }
        }
        for id in ["a", "b"] { if w.m.procs.contains_key(id) && w.exited.is_none() {
            if mode == "agent" { if w.ws.is_empty() { continue; } w.req(0, json!({"type": "ProcDeleteRequest", "proc_id": id})); } else { w.http("DELETE", &format!("/procs/{id}"), None); }
            w.settle()?;
        } }
        if !must && mode == "serve" { return Ok(()); }
        for _ in 0..80 { if w.exited.is_some() || w.timeout < 0 { break; } w.expire(); w.settle()?; }
        if w.exited != Some(0) { return Err(format!("after {first} and {second}, procstar has not exited: {:?}", w.exited)); }
        if mode == "print" { w.m.lenient = true; w.check_print()?; }
        Ok(())
    }));
    }
    v.push(Scn::new("a signal as a shutdown ends, under load", Conf::serve().mask(&[K_EPOLL]), 1, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
        let load = [0, 60, 70][w.choose("requests", 3, 0)];
        let reqs: Vec<usize> = (0..load).map(|_| w.http_raw("GET /procs", b"GET /procs HTTP/1.1\r\nHost: x\r\nConnection: close\r\n")).collect();
        w.settle()?;
        let first = [t, q][w.choose("first", 2, 0)];
        let second = [u, t, q, i][w.choose("second", 4, 0)];
        w.raise(first);
        w.settle()?;
        for id in ["a", "b"] { if w.running(id) { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); } }
        w.settle()?;
        let at = w.choose("at", 6, 0);
        for _ in 0..40 {
            if w.exited.is_some() { break; }
            if w.mono + w.timeout as i64 * MS >= MONO0 + 5000 * MS {
                let c = Rc::new(std::cell::Cell::new(0));
                w.hook = Some(Rc::new(move |w, _, _, _| { c.set(c.get() + 1); if c.get() == at + 1 { w.raise(second); } Ok(0) }));
                for r in &reqs { w.http_more(*r, b"\r\n"); }
            }
            w.expire();
            w.settle()?;
        }
        for _ in 0..40 { if w.exited.is_some() || w.timeout < 0 { break; } w.expire(); w.settle()?; }
        if w.exited != Some(0) { return Err(format!("after signals {first} and {second}, procstar does not exit: {:?}", w.exited)); }
        Ok(())
    }));
    // Done is final: the last word of one shutdown coincides with another signal.
    v.push(Scn::new("a signal as the shutdown ends", Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]).mask(&[K_SELECT]), if deep { 2 } else { 1 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
        w.settle()?;
        let first = [t, q][w.choose("first", 2, 0)];
        let second = [t, q, u, i][w.choose("second", 4, 0)];
        w.raise(first);
        w.settle()?;
        // The signal arrives with the timeout, or with the last deletion.
        match w.choose("end", 2, 0) {
            0 => { for _ in 0..40 { if w.exited.is_some() { break; } if w.mono + w.timeout as i64 * MS >= MONO0 + 4990 * MS && w.mono < MONO0 + 5100 * MS { w.raise(second); } w.expire(); w.settle()?; } }
            _ => {
                let r = w.call("DELETE", "/procs/a", None)?;
                if r.status != 200 { return Err("delete failed".into()); }
                if w.choose("order", 2, 0) == 0 { w.raise(second); w.http("DELETE", "/procs/b", None); } else { w.http("DELETE", "/procs/b", None); w.raise(second); }
                w.settle()?;
            }
        }
        for _ in 0..40 { if w.exited.is_some() || w.timeout < 0 { break; } w.expire(); w.settle()?; }
        if w.exited != Some(0) { return Err(format!("procstar does not exit: {:?}", w.exited)); }
        let told: Vec<String> = w.ws[0].got.iter().map(|v| v.json()).filter(|j| j["type"] == "ShutDown").map(|j| j["shutdown_state"].as_str().unwrap_or("").to_string()).collect();
        if told.last().map(|s| s.as_str()) != Some("done") { return Err(format!("the agent server was told: {told:?}")); }
        Ok(())
    }));
    v
}
/// A signal that arrives while the processes from the command line are started.
fn during_start(name: &str, sig: i32, deep: bool) -> Scn {
    Scn::new(&format!("{name} while processes are started"), Conf::new(&["--serve", "-"]).mask(&[K_PIPE, K_FORK, K_MKSTEMP, K_OPEN, K_CLOSE]), 0, move |w| {
        let s = json!({"a": cap1("a"), "b": pspec("b", &[("1", capture("tempfile", None, true))]), "c": cap1("c")});
        w.expect_procs(&s);
        w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap());
        let at = w.choose("at", if deep { 60 } else { 30 }, 0);
        let c = Rc::new(std::cell::Cell::new(0));
        let (c2, on) = (c.clone(), Rc::new(std::cell::Cell::new(false)));
        w.hook = Some(Rc::new(move |w, kind, _, child| {
            if child { return Ok(0); }
            // Only once the start is under way.
            if kind == K_PIPE && w.temps.is_empty() && !on.get() && c2.get() == 0 { c2.set(1); }
            if w.kids.is_empty() && kind != K_FORK && !on.get() { return Ok(0); }
            on.set(true);
            c2.set(c2.get() + 1);
            if c2.get() == at + 2 { w.raise(sig); w.data.insert("raised".into(), 1); }
            Ok(0)
        }));
        w.settle()?;
        w.hook = None;
        if !w.data.contains_key("raised") { return Ok(()); }
        if w.exited.is_some() { return Err("procstar exits, with processes".into()); }
        if w.kids.len() != 3 { return Err("not all processes were started".into()); }
        for k in 0..3 {
            let want: Vec<i32> = match sig { libc::SIGUSR1 => vec![], libc::SIGQUIT => vec![9], _ => vec![15] };
            if w.kids[k].got != want { return Err(format!("a process was sent {:?}, expected {want:?}", w.kids[k].got)); }
        }
        w.quiescent()?;
        w.check_list()?;
        for k in 0..3 { if w.alive(k) { w.kid_exit(k, 0); } }
        w.settle()?; w.quiescent()?;
        w.delete_all()?;
        w.settle()?;
        if w.exited != Some(0) { return Err(format!("procstar does not exit: {:?}", w.exited)); }
        Ok(())
    })
}
/// With processes that procstar may not signal (as they have changed user).
fn immune(name: &str, sig: i32, deep: bool) -> Scn {
    Scn::new(&format!("{name} with processes that may not be signaled"), Conf::serve().mask(if deep { &[K_WAIT] } else { &[] }), if deep { 2 } else { 1 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": cap1("a"), "b": cap1("b"), "c": cap1("c"), "d": cap1("d")}))?;
        let mask = 1 + w.choose("which", 15, 0);
        let robust = if sig == libc::SIGQUIT { 0 } else { w.choose("one that ignores SIGTERM", 5, 0) };
        let ks: Vec<usize> = ["a", "b", "c", "d"].iter().map(|i| w.kid(i).unwrap()).collect();
        for i in 0..4 { if mask & 1 << i != 0 { let p = w.kids[ks[i]].pid; w.immune.push(p); } }
        if robust > 0 { w.kid_ignore(ks[robust - 1], 15); }
        let what = w.choose("then", 3, 0);
        let first = if sig == libc::SIGQUIT { 9 } else { 15 };
        w.raise(sig);
        w.settle()?; w.quiescent()?;
        let gone = |w: &World, i: usize| w.kids[ks[i]].phase == Phase::Dead;
        for i in 0..4 {
            let want = mask & 1 << i == 0;
            if want && !w.kids[ks[i]].got.contains(&first) { return Err(format!("process {i} was not sent signal {first}, as others may not be signaled")); }
            if gone(w, i) != (want && (first == 9 || robust != i + 1)) { return Err(format!("process {i} {}", if gone(w, i) { "has ended" } else { "has not ended" })); }
        }
        w.check_list()?;
        let t0 = w.mono;
        if what > 0 {
            // They end by themselves, in time; and are deleted, or not.
            w.sleep(2000)?;
            if w.exited.is_some() { return Err("procstar exits though processes remain".into()); }
            for i in 0..4 { if !gone(w, i) { w.kid_exit(ks[i], 0); } }
            w.settle()?; w.quiescent()?;
            w.check_list()?;
            if what == 2 { w.delete_all()?; w.settle()?; if w.exited != Some(0) { return Err(format!("nothing is left to wait for, but procstar has not exited: {:?}", w.exited)); } return Ok(()); }
        }
        let wait = if what == 0 { if sig == libc::SIGQUIT { 5000 } else { 65000 } } else if sig == libc::SIGQUIT { 3000 } else { 5000 };
        let mut left = wait;
        while left > 2000 {
            w.sleep(if left > 8000 { 4000 } else { 1500 })?; left -= if left > 8000 { 4000 } else { 1500 };
            if w.exited.is_some() { return Err(format!("procstar exits after {} ms, with processes", (w.mono - t0) / 1_000_000)); }
            let killed = sig != libc::SIGQUIT && what == 0 && left < 4900;
            if killed { for i in 0..4 { if mask & 1 << i == 0 && !gone(w, i) { return Err(format!("process {i} was not killed when the time was over")); } } }
        }
        w.sleep(left + 500)?;
        if w.exited != Some(0) { return Err(format!("procstar has not exited with status 0: {:?}", w.exited)); }
        for i in 0..4 { if mask & 1 << i == 0 && !gone(w, i) { return Err(format!("process {i} is left running")); } }
        Ok(())
    })
}
/// With results to be printed.
fn printing(name: &str, sig: i32, deep: bool) -> Scn {
    Scn::new(&format!("{name} with results to print"), Conf::new(&["--print", "-"]), if deep { 4 } else { 3 }, move |w| {
        let t = Track::new(Ref::new(true, false));
        let ids = ["a", "b"];
        let mut ks = kinds(w, 2);
        if !ks.iter().any(|k| [0, 1, 4].contains(k)) { ks[0] = 1; }
        start_kinds(w, &t, &ids, &ks, true)?;
        check(w, &t, false)?;
        w.actor(vec![o_sig(&t, sig)]);
        for id in ids { w.actor(vec![o_write(id, 1, 7), o_end(&t, id)]); }
        w.actor(vec![o_next(), o_pass(2000), o_next()]);
        let t2 = t.clone();
        w.interleave(1, true, &move |w| { compare(w, &t2)?; if w.exited.is_none() { w.check_reaped()?; } Ok(()) })?;
        for _ in 0..60 { if w.exited.is_some() || w.timeout < 0 { break; } w.expire(); w.settle()?; compare(w, &t)?; }
        if w.exited.is_none() { return Err("procstar does not exit".into()); }
        w.check_print()
    })
}

//---- P20

pub fn arguments(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let modes: Vec<(&str, Vec<&'static str>)> = vec![
        ("exit", vec!["--exit"]), ("print", vec!["--print"]), ("output", vec!["--output", "out.json"]), ("print and output", vec!["-p", "-o", "out.json"]), ("print and serve", vec!["--print", "--serve"]),
        ("exit and serve", vec!["-x", "-s"]), ("output and serve", vec!["-o", "out.json", "-s"]), ("wait and serve", vec!["--wait", "--serve"]), ("wait", vec!["-w"]), ("serve", vec!["--serve"]),
        ("print and agent", vec!["--print", "--agent", "--agent-host", "127.0.0.1"]), ("exit and agent", vec!["--exit", "--agent", "--agent-host", "127.0.0.1"]), ("wait and agent", vec!["--wait", "--agent", "--agent-host", "127.0.0.1", "--serve"]),
    ];
    for (name, args) in modes {
        for n in 0..(if deep { 4 } else { 3 }) {
            if (name == "wait" || name == "serve") && n == 0 { continue; }
            let mut a = args.clone();
            if n > 0 { a.push("-"); }
            let served = a.contains(&"--serve") || a.contains(&"-s");
            let exits = ["exit", "print", "output"].iter().any(|m| name.contains(m));
            let waits = name.contains("wait");
            let b = if deep { [0, 4, 3, 2][n] } else { [0, 3, 2][n] };
            v.push(Scn::new(&format!("{name}, {n} processes"), Conf::new(&a).mask(&[K_WAIT]), b, move |w| {
                let t = Track::new(Ref::new(exits, waits));
                let ids: Vec<&'static str> = ["a", "b", "c"][..n].to_vec();
                let ks: Vec<usize> = (0..n).map(|_| [0, 3][w.choose("kind", 2, 0)]).collect();
                let bad: Vec<&str> = ids.iter().zip(&ks).filter(|x| *x.1 == 3).map(|x| *x.0).collect();
                let bad2: Vec<String> = bad.iter().map(|s| s.to_string()).collect();
                w.exec_errno = Some(Rc::new(move |x| if bad2.iter().any(|b| x.argv[0] == b.as_bytes()) { libc::EACCES } else { 0 }));
                let s = J::Object(ids.iter().map(|id| (id.to_string(), exe(id))).collect());
                if n > 0 { w.expect_procs(&s); w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap()); }
                for (id, k) in ids.iter().zip(&ks) { track_proc(&t, id, false, *k != 3); }
                w.settle()?;
                let good: Vec<&'static str> = ids.iter().zip(&ks).filter(|x| *x.1 == 0).map(|x| *x.0).collect();
                for id in &ids {
                    let mut ops = vec![];
                    if good.contains(id) { ops.push(o_write(id, 1, 5)); ops.push(o_end(&t, id)); }
                    if served { ops.push(o_del(&t, id)); }
                    w.actor(ops);
                }
                if served { w.actor(vec![o_new(&t, "x"), o_end(&t, "x"), o_del(&t, "x")]); }
                w.actor(vec![o_pass(100_000)]);
                w.inject = true;
                let t2 = t.clone();
                w.interleave(1, true, &move |w| { compare(w, &t2)?; if w.exited.is_none() { w.check_reaped()?; w.check_pending()?; w.m.lo = w.snap(); } else { w.m.expect.clear(); w.m.reqs.clear(); } Ok(()) })?;
                w.inject = false;
                if !exits { return Ok(()); }
                if w.exited.is_none() { return Err("procstar has not exited".into()); }
                if name.contains("print") { w.check_print()?; } else if !w.stdout().is_empty() { return Err("something was printed".into()); }
                if name.contains("output") {
                    let d = std::fs::read(format!("{}/out.json", w.scratch())).map_err(|e| format!("output file: {e}"))?;
                    let j: J = serde_json::from_slice(&d).map_err(|e| format!("output file: {e}"))?;
                    w.check_results(&j)?;
                }
                Ok(())
            }));
        }
    }
    // Clients that do not behave do not spoil the results.
    for (mode, args) in [("--print", vec!["--print", "--serve", "-"]), ("--output", vec!["--output", "out.json", "--serve", "-"]), ("--print and --agent", vec!["--print", "--serve", "--agent", "--agent-host", "127.0.0.1", "-"])] {
        v.push(Scn::new(&format!("misbehaving clients, with {mode}"), Conf::new(&args), 0, move |w| {
            let s = json!({"a": exe("a"), "b": exe("b")});
            w.expect_procs(&s);
            w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap());
            w.settle()?;
            let good = super::misc::raw("POST", "/procs/a/signals/0x", Some("application/json"), Some(b"{\"specs\": {}}"));
            let step = if deep { 1 } else { 7 };
            let mut all: Vec<Vec<u8>> = super::misc::nonsense().into_iter().map(|x| x.0).collect();
            all.extend((0..=good.len()).step_by(step).map(|i| good[..i].to_vec()));
            let k = w.choose("what", all.len(), 0);
            let when = w.choose("when", 3, 0);
            let hang = w.choose("hang up", 2, 0) == 1;
            let bad = mode.contains("agent") && w.choose("agent", 2, 0) == 1;
            for (n, id) in ["a", "b"].into_iter().enumerate() {
                if n == when {
                    let i = w.http_raw("misbehaving", &all[k]);
                    w.settle()?;
                    if hang { w.http_drop(i); w.settle()?; }
                    w.reqs[i].taken = true;
                    if bad { let c = w.ws.len() - 1; w.ws_frame(c, 2, b"\xc1"); w.settle()?; w.ws_frame(c, 1, b"hello"); w.settle()?; }
                }
                w.emit(id, 1, 70)?;
                w.emit(id, 2, 7)?;
                w.settle()?;
                if n == 1 && when == 2 {
                    // At the very moment at which it is done.
                    let i = w.http_raw("misbehaving", &all[k]);
                    if hang { w.http_drop(i); }
                    w.reqs[i].taken = true;
                }
                let kid = w.kid(id).ok_or("not started")?;
                w.kid_exit(kid, 1);
                w.settle()?;
            }
            w.m.expect.clear(); w.m.reqs.clear();
            if w.exited.is_none() { return Err("procstar has not exited".into()); }
            if mode.starts_with("--print") { return w.check_print(); }
            if !w.stdout().is_empty() { return Err("something was printed".into()); }
            if w.exited != Some(0) { return Err(format!("procstar ends with {:?}", w.exited)); }
            let d = std::fs::read(format!("{}/out.json", w.scratch())).map_err(|e| format!("output file: {e}"))?;
            w.check_results(&serde_json::from_slice(&d).map_err(|e| format!("output file: {e}"))?)
        }));
    }
    for (name, args, f) in [("specs from a file", vec!["--print", "specs.json"], true), ("no such file", vec!["--print", "nothing.json"], false), ("output cannot be written", vec!["--output", "nodir/out.json", "-"], true),
        ("output to a full disk", vec!["--output", "/dev/full", "-"], true), ("output to a directory", vec!["--output", ".", "-"], true), ("output over an older file", vec!["--output", "older.json", "-"], true)] {
        v.push(Scn::new(name, Conf::new(&args).file("specs.json", serde_json::to_string(&json!({"specs": {"a": exe("a"), "b": exe("b")}})).unwrap().as_bytes()).file("older.json", &b"{\"old\": 1}          ".repeat(1000)), 0, move |w| {
            let s = json!({"a": exe("a"), "b": exe("b")});
            if f { w.expect_procs(&s); }
            w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap());
            w.settle()?;
            if !f { if w.exited.is_none() || w.exited == Some(0) || !w.kids.is_empty() { return Err(format!("procstar ends with {:?}", w.exited)); } return Ok(()); }
            let order = if w.choose("order", 2, 0) == 0 { ["a", "b"] } else { ["b", "a"] };
            for id in order { if w.exited.is_some() { return Err("procstar exits early".into()); } w.emit(id, 1, 70)?; let k = w.kid(id).ok_or("not started")?; w.kid_exit(k, 1); w.settle()?; }
            if name == "output over an older file" {
                if w.exited != Some(0) { return Err(format!("procstar ends with {:?}", w.exited)); }
                let d = std::fs::read(format!("{}/older.json", w.scratch())).map_err(|e| format!("output file: {e}"))?;
                return w.check_results(&serde_json::from_slice(&d).map_err(|e| format!("output file: {e}"))?);
            }
            if name.starts_with("output") { if w.exited.is_none() || w.exited == Some(0) { return Err(format!("procstar ends with {:?}", w.exited)); } return Ok(()); }
            w.check_print()
        }));
    }
    v
}
