//! Both ends: the real procstar, and the real Python library in another process
//! (py/bridge.py), with all that passes between them in the hands of the explorer.
use crate::engine::{Scn, R};
use crate::model::*;
use crate::msgpack;
use crate::props::fds::{self, check_table};
use crate::world::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;

pub struct Py { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }
impl Py {
    fn spawn() -> Py {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new("/opt/vp/venv/bin/python");
        c.args(["-B", "/verif/harness/py/bridge.py"]).env_clear().env("PYTHONPATH", "/repo/python").env("PYTHONDONTWRITEBYTECODE", "1").env("PYTHONHASHSEED", "0").env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::piped()).stdout(Stdio::piped());
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut child = c.spawn().expect("python");
        let (inp, out) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Py { child, inp, out }
    }
    fn say(&mut self, j: &J) { let mut t = j.to_string(); t.push('\n'); self.inp.write_all(t.as_bytes()).expect("python is gone"); }
    fn hear(&mut self) -> J {
        let mut l = String::new();
        if self.out.read_line(&mut l).expect("python") == 0 { panic!("python is gone"); }
        serde_json::from_str(&l).unwrap_or_else(|_| panic!("python said {l:?}"))
    }
}
impl Drop for Py { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static PY: RefCell<Option<Py>> = RefCell::new(None); }

const CLOSED: u8 = 255;

#[derive(Clone, Default, Debug)]
struct Life { got: Vec<J>, over: Option<String>, registered: bool }
#[derive(Clone, Debug, Default)]
pub struct Done { pub exc: Option<String>, pub msg: String, pub res: J }

/// The state of what is between the two ends.
pub struct End {
    py: Option<Py>,
    up: BTreeMap<usize, VecDeque<(u8, Vec<u8>)>>,      // from procstar
    down: BTreeMap<usize, VecDeque<(u8, Vec<u8>)>>,    // to procstar
    open: BTreeSet<usize>,                             // at the Python end
    app: BTreeSet<usize>,                              // at procstar's end
    broken: BTreeMap<usize, &'static str>,             // lost, not noticed by both yet
    regs: BTreeMap<usize, Vec<String>>,                // registered
    lives: BTreeMap<String, Vec<Life>>,
    pub calls: BTreeMap<String, Done>,
    pub made: BTreeMap<String, (String, J)>,           // calls
    pub conn_id: String,
    pub lost: bool,                                    // a connection was lost
    pub http: Vec<J>,
    shutdown: String,
    pub loose: bool,                                   // processes come and go by other means
}
pub type E = Rc<RefCell<End>>;

fn b64(b: &[u8]) -> String { use base64::Engine; base64::engine::general_purpose::STANDARD.encode(b) }
/// Equal but for the last digits of floats.
fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); (x - y).abs() <= 1e-9 * x.abs().max(1.) },
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| same(v, w)).unwrap_or(false)),
        _ => a == b,
    }
}
fn short(j: &J) -> String { j.to_string().chars().take(400).collect() }

pub fn begin(w: &mut World, opts: J) -> R<E> {
    w.relay = true; w.ws_autoreg = false;
    let mut py = PY.with(|p| p.borrow_mut().take()).unwrap_or_else(Py::spawn);
    let mut c = opts; c["op"] = json!("new");
    py.say(&c);
    let r = py.hear();
    if r["failed"].is_string() { return Err(format!("the Python server does not start: {}", r["failed"])); }
    let e = Rc::new(RefCell::new(End { py: Some(py), up: BTreeMap::new(), down: BTreeMap::new(), open: BTreeSet::new(), app: BTreeSet::new(), broken: BTreeMap::new(), regs: BTreeMap::new(), lives: BTreeMap::new(),
        calls: BTreeMap::new(), made: BTreeMap::new(), conn_id: String::new(), lost: false, http: vec![], shutdown: String::new(), loose: false }));
    flush(w, &e)?;
    Ok(e)
}
impl Drop for End {
    fn drop(&mut self) {
        let Some(mut py) = self.py.take() else { return };
        if std::thread::panicking() { return; }
        py.say(&json!({"op": "end"}));
        let mut l = String::new();
        if py.out.read_line(&mut l).unwrap_or(0) > 0 && l.trim() == "{}" { PY.with(|p| *p.borrow_mut() = Some(py)); }
    }
}

impl End {
    fn ask(&mut self, w: &mut World, cmd: J) -> R<J> {
        let py = self.py.as_mut().unwrap();
        py.say(&cmd);
        loop {
            let r = py.hear();
            if r["failed"].is_string() { let t = r["failed"].as_str().unwrap().to_string(); if w.keep { w.log.push(t.clone()); } self.py = None; return Err(format!("the Python end failed: {}", t.trim().lines().last().unwrap_or(""))); }
            if r["http"].is_null() { return Ok(r); }
            // A request of the HTTP client.
            let h = &r["http"];
            self.http.push(h.clone());
            let body = unb64(h["body"].as_str().unwrap()).unwrap();
            let mut t = format!("{} {} HTTP/1.1\r\n", h["method"].as_str().unwrap(), h["path"].as_str().unwrap());
            for x in h["headers"].as_array().unwrap() { let k = x[0].as_str().unwrap(); if !k.eq_ignore_ascii_case("connection") { t += &format!("{k}: {}\r\n", x[1].as_str().unwrap()); } }
            if !t.to_ascii_lowercase().contains("\r\nhost:") { t += "Host: x\r\n"; }
            t += "Connection: close\r\n\r\n";
            let mut b = t.into_bytes();
            b.extend(body);
            let i = w.http_raw(&format!("{} {}", h["method"].as_str().unwrap(), h["path"].as_str().unwrap()), &b);
            w.settle()?;
            let rsp = w.take(i)?;
            py.say(&json!({"status": rsp.status, "headers": [["content-type", rsp.ctype]], "body": b64(&rsp.body)}));
        }
    }
    fn tell(&mut self, w: &mut World, cmd: J) -> R {
        let r = self.ask(w, cmd)?;
        for x in r["out"].as_array().unwrap() {
            let c = x[0].as_u64().unwrap() as usize;
            if !self.app.contains(&c) { continue; }
            self.down.entry(c).or_default().push_back((x[1].as_u64().unwrap() as u8, unb64(x[2].as_str().unwrap()).unwrap()));
        }
        for c in r["closed"].as_array().cloned().unwrap_or_default() {
            let c = c.as_u64().unwrap() as usize;
            self.open.remove(&c);
            self.up.remove(&c);
            if self.app.contains(&c) && !self.broken.contains_key(&c) { self.down.entry(c).or_default().push_back((CLOSED, vec![])); }
        }
        if let Some(m) = r["calls"].as_object() {
            for (k, v) in m {
                if w.keep { w.log.push(format!("{k}: {}", short(v))); }
                self.calls.insert(k.clone(), Done { exc: v["exc"].as_str().map(|s| s.into()), msg: v["msg"].as_str().unwrap_or("").into(), res: v["res"].clone() });
            }
        }
        Ok(())
    }
    /// Takes what procstar has sent.
    fn take(&mut self, w: &mut World) -> R {
        for i in 0..w.ws.len() {
            if w.ws[i].state != WsState::Open && w.ws[i].state != WsState::Closed { continue; }
            if w.ws[i].state == WsState::Open && !self.app.contains(&i) && !self.broken.contains_key(&i) && !w.ws[i].eof {
                self.app.insert(i);
                self.open.insert(i);
                self.tell(w, json!({"op": "open", "c": i}))?;
            }
            let raw = std::mem::take(&mut w.ws[i].raw);
            for (op, d) in raw {
                if op == 2 {
                    // What procstar says must be true.
                    let m = msgpack::decode(&d)?.json();
                    let id = m["proc_id"].as_str().unwrap_or("").to_string();
                    if m["type"] == "ProcResult" && w.m.procs.contains_key(&id) { let lo = Snap::default(); w.check_res(&id, &m["res"], &lo)?; }
                    if m["type"] == "ProcFdData" && w.m.procs.contains_key(&id) {
                        let n = fdnum(m["fd"].as_str().unwrap_or("")).ok_or("fd data without fd")?;
                        let all = w.m.out.get(&(id.clone(), n)).cloned().unwrap_or_default();
                        let (a, b) = (m["start"].as_u64().unwrap_or(9999999) as usize, m["stop"].as_u64().unwrap_or(9999999) as usize);
                        if a > b || (a < b && b > all.len()) || m["data"]["$b"].as_array().map(|d| d.iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()) != Some(all[a.min(all.len())..b.min(all.len())].to_vec()) { return Err(format!("fd data {} of process {id}", short(&m))); }
                    }
                }
                if self.open.contains(&i) && !self.broken.contains_key(&i) { self.up.entry(i).or_default().push_back((op, d)); }
            }
            if w.ws[i].eof && self.app.remove(&i) {
                self.down.remove(&i);
                if self.open.contains(&i) && !self.broken.contains_key(&i) { self.up.entry(i).or_default().push_back((CLOSED, vec![])); }
                w.ws[i].sock = None; w.ws[i].state = WsState::Closed;
            }
        }
        Ok(())
    }
    fn life(&mut self, id: &str) -> &mut Life {
        let l = self.lives.entry(id.to_string()).or_default();
        if l.last().map(|x| x.over.is_some()).unwrap_or(true) { l.push(Life::default()); }
        l.last_mut().unwrap()
    }
    fn up1(&mut self, w: &mut World, c: usize) -> R {
        let (op, d) = self.up.get_mut(&c).unwrap().pop_front().unwrap();
        if op == CLOSED {
            if w.keep { w.log.push(format!("python: connection {c} closed")); }
            self.open.remove(&c);
            return self.tell(w, json!({"op": "lost", "c": c, "how": "eof"}));
        }
        if op == 2 {
            let m = msgpack::decode(&d)?.json();
            if w.keep { w.log.push(format!("python {c} < {}", m["type"])); }
            let id = m["proc_id"].as_str().unwrap_or("").to_string();
            match m["type"].as_str().unwrap_or("") {
                "Register" => {
                    let ids: Vec<String> = m["proc_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    self.conn_id = m["conn"]["conn_id"].as_str().unwrap_or("").into();
                    self.regs.insert(c, ids.clone());
                    self.shutdown = m["shutdown_state"].as_str().unwrap_or("").into();
                    for id in &ids { if !self.lives.get(id).and_then(|l| l.last()).map(|l| l.over.is_none()).unwrap_or(false) { self.life(id).registered = true; } }
                    for (id, l) in self.lives.iter_mut() { if !ids.contains(id) { if let Some(l) = l.last_mut() { if l.over.is_none() { l.over = Some("ProcessUnknownError".into()); } } } }
                }
                "ShutDown" => {
                    self.shutdown = m["shutdown_state"].as_str().unwrap_or("").into();
                    if self.shutdown == "done" { for l in self.lives.values_mut() { if let Some(l) = l.last_mut() { if l.over.is_none() { l.over = Some("ProcessUnknownError".into()); } } } }
                }
                "ProcResult" => { let r = json!(["result", m["res"]]); self.life(&id).got.push(r); }
                "ProcFdData" => { let r = json!(["fd", m["fd"], m["start"], m["stop"], m["encoding"], m["data"]]); self.life(&id).got.push(r); }
                "ProcDelete" => { if let Some(l) = self.lives.get_mut(&id).and_then(|l| l.last_mut()) { if l.over.is_none() { l.over = Some("end".into()); } } }
                "ProcUnknown" => { if let Some(l) = self.lives.get_mut(&id).and_then(|l| l.last_mut()) { if l.over.is_none() { l.over = Some("ProcessUnknownError".into()); } } }
                "RequestError" if m["msg"]["type"] == "ProcStartRequest" => {
                    // Not started; but if it had a result, there is another of its ID.
                    for id in m["msg"]["specs"].as_object().unwrap().keys() {
                        let l = self.life(id);
                        l.got.push(json!(["error"]));
                        if l.got.iter().all(|g| g[0] == "error") { l.over = Some("removed".into()); }
                    }
                }
                "RequestError" => { if let Some(id) = m["msg"]["proc_id"].as_str() { if self.lives.get(id).and_then(|l| l.last()).map(|l| l.over.is_none()).unwrap_or(false) { self.life(id).got.push(json!(["error"])); } } }
                _ => {}
            }
        }
        self.tell(w, json!({"op": "frame", "c": c, "kind": op, "data": b64(&d)}))
    }
    fn down1(&mut self, w: &mut World, c: usize) -> R {
        let (op, d) = self.down.get_mut(&c).unwrap().pop_front().unwrap();
        if op == CLOSED { self.app.remove(&c); w.ws_drop(c); return Ok(()); }
        if op == 2 {
            let m = msgpack::decode(&d)?.json();
            if w.keep { w.log.push(format!("procstar {c} < {}", short(&m))); }
            if m["type"] == "Registered" { w.ws[c].regd = true; }
            if m["type"] == "ProcStartRequest" { for (id, s) in m["specs"].as_object().unwrap() { if !w.m.procs.contains_key(id) { let sp = self.canon(id).unwrap_or(s.clone()); w.expect_procs(&json!({id: sp})); } } }
        }
        w.ws_frame(c, op, &d);
        Ok(())
    }
    /// What the user meant by a spec.
    fn canon(&self, id: &str) -> Option<J> { self.made.values().find(|(m, a)| m.ends_with("start") && a[0] == id).and_then(|(_, a)| if a[1]["canon"].is_null() { None } else { Some(a[1]["canon"].clone()) }) }
    fn ready(q: &BTreeMap<usize, VecDeque<(u8, Vec<u8>)>>) -> Vec<usize> { q.iter().filter(|x| !x.1.is_empty()).map(|x| *x.0).collect() }
}

#[derive(Clone, Copy, Debug)]
enum Ev { Up(usize), Down(usize), PyLoses(usize), AppLoses(usize), Act(usize) }
fn events(w: &World, e: &End) -> Vec<Ev> {
    let mut v = vec![];
    for c in End::ready(&e.up) { v.push(Ev::Up(c)); }
    if w.exited.is_none() { for c in End::ready(&e.down) { v.push(Ev::Down(c)); } }
    for c in e.broken.keys() {
        if w.exited.is_none() && e.app.contains(c) && e.down.get(c).map(|q| q.is_empty()).unwrap_or(true) { v.push(Ev::AppLoses(*c)); }
        if e.open.contains(c) && e.up.get(c).map(|q| q.is_empty()).unwrap_or(true) { v.push(Ev::PyLoses(*c)); }
    }
    v
}
fn happen(w: &mut World, e: &mut End, ev: Ev) -> R {
    match ev {
        Ev::Up(c) => e.up1(w, c),
        Ev::Down(c) => e.down1(w, c),
        Ev::AppLoses(c) => { e.app.remove(&c); w.ws_drop(c); Ok(()) }
        Ev::PyLoses(c) => { e.open.remove(&c); let how = e.broken[&c]; if w.keep { w.log.push(format!("python: connection {c} lost")); } e.tell(w, json!({"op": "lost", "c": c, "how": how})) }
        Ev::Act(_) => unreachable!(),
    }
}
/// All that is on its way arrives.
pub fn flush(w: &mut World, e: &E) -> R {
    for _ in 0..10000 {
        w.settle()?;
        let mut x = e.borrow_mut();
        x.take(w)?;
        match events(w, &x).first() { Some(ev) => happen(w, &mut x, *ev)?, None => return Ok(()) }
    }
    Err("the two ends never come to rest".into())
}
/// Runs the actors, with everything that can happen in every order, at a cost of 1 per deviation.
pub fn explore(w: &mut World, e: &E) -> R {
    for _ in 0..10000 {
        w.settle()?;
        e.borrow_mut().take(w)?;
        let mut v = events(w, &e.borrow());
        for a in w.enabled() { v.push(Ev::Act(a)); }
        if v.is_empty() { return Ok(()); }
        let k = w.choose("event", v.len(), 1);
        if let Ev::Act(a) = v[k] {
            w.step(a)?;
            // At once with the next, for procstar.
            let en = w.enabled();
            if !en.is_empty() { let k = w.choose("together", 1 + en.len(), 1); if k > 0 { w.step(en[k - 1])?; } }
        } else { happen(w, &mut e.borrow_mut(), v[k])?; }
    }
    Err("the two ends never come to rest".into())
}

//---- Operations

pub fn call(w: &mut World, e: &E, k: &str, m: &str, a: J, kw: J) -> R {
    let mut x = e.borrow_mut();
    x.made.insert(k.to_string(), (m.to_string(), a.clone()));
    if w.keep { w.log.push(format!("call {k}: {m} {}", short(&a))); }
    x.tell(w, json!({"op": "call", "k": k, "m": m, "a": a, "kw": kw}))
}
fn o_call(e: &E, k: &'static str, m: &'static str, a: J) -> Op { let e = e.clone(); op(&format!("{m} {}", short(&a)), move |w| call(w, &e, k, m, a.clone(), json!({}))) }
/// A call on a process, if Python knows it.
fn o_pcall(e: &E, k: &'static str, m: &'static str, a: J) -> Op {
    let (e, e2) = (e.clone(), e.clone());
    let id = a[0].as_str().unwrap().to_string();
    op_if(&format!("{m} {}", short(&a)), move |_| e2.borrow().lives.get(&id).and_then(|l| l.last()).map(|l| l.over.is_none()).unwrap_or(false), move |w| call(w, &e, k, m, a.clone(), json!({})))
}
fn o_cut(e: &E, how: &'static str) -> Op {
    let (e, e2) = (e.clone(), e.clone());
    op_if("connection breaks", move |_| { let x = e2.borrow(); x.app.iter().any(|c| x.open.contains(c) && !x.broken.contains_key(c) && x.regs.contains_key(c)) }, move |w| {
        let mut x = e.borrow_mut();
        let c = *x.app.iter().find(|c| x.open.contains(c) && !x.broken.contains_key(c) && x.regs.contains_key(c)).unwrap();
        // What is under way may still arrive, at either end.
        let keep = if x.up.get(&c).map(|q| q.len()).unwrap_or(0) + x.down.get(&c).map(|q| q.len()).unwrap_or(0) > 0 { w.choose("still arrives", 4, 0) } else { 3 };
        if keep & 1 == 0 { x.up.remove(&c); }
        if keep & 2 == 0 { x.down.remove(&c); }
        x.broken.insert(c, how);
        x.lost = true;
        Ok(())
    })
}
/// The Python server ends and another starts.
fn restart(w: &mut World, e: &E) -> R {
    let mut x = e.borrow_mut();
    if w.keep { w.log.push("the Python server restarts".into()); }
    for c in std::mem::take(&mut x.app) { w.ws_drop(c); }
    x.open.clear(); x.up.clear(); x.down.clear(); x.broken.clear(); x.lives.clear(); x.calls.clear(); x.made.clear();
    x.lost = true;
    x.tell(w, json!({"op": "restart", "reconnect_timeout": 300}))
}
fn o_sleep(e: &E, ms: i64) -> Op {
    let e = e.clone();
    op(&format!("{ms} ms pass"), move |w| {
        w.sleep(ms)?;
        e.borrow_mut().tell(w, json!({"op": "sleep", "dt": ms as f64 / 1e3}))
    })
}
fn o_get_delete(e: &E, id: &'static str) -> Op {
    let e = e.clone();
    op(&format!("DELETE {id}"), move |w| { e.borrow_mut().loose = true; w.http("DELETE", &format!("/procs/{id}"), None); Ok(()) })
}
fn o_post(e: &E, id: &'static str) -> Op {
    let e = e.clone();
    op(&format!("POST {id}"), move |w| { e.borrow_mut().loose = true; let s = json!({id: cap(id)}); if !w.m.procs.contains_key(id) { w.expect_procs(&s); } w.http("POST", "/procs", Some(&json!({"specs": s}))); Ok(()) })
}
fn cap(id: &str) -> J { pspec(id, &[("stdout", capture("memory", None, true))]) }
fn sp(id: &str) -> J { json!({"raw": cap(id)}) }

//---- The truth at both ends

pub fn check(w: &mut World, e: &E) -> R {
    flush(w, e)?;
    let mut x = e.borrow_mut();
    let s = x.ask(w, json!({"op": "state"}))?;
    let ids: BTreeSet<String> = if w.exited.is_none() && w.listen.is_some() { w.get("/procs")?["procs"].as_object().ok_or("no processes")?.keys().cloned().collect() } else { BTreeSet::new() };
    for id in w.m.procs.keys().cloned().collect::<Vec<_>>() { if !ids.contains(&id) { w.forget(&id); } }
    // A process that start() has returned is one.
    for (k, d) in &x.calls {
        let Some((m, _)) = x.made.get(k) else { continue };
        if m == "start" && d.exc.is_none() && !w.kids.iter().any(|k| d.res["pid"] == k.pid) && d.res["state"] != "error" { return Err(format!("start() returned {}", short(&d.res))); }
    }
    if w.exited.is_some() && !x.lost && s["procs"].as_object().unwrap().len() > 0 { return Err(format!("procstar has shut down, but has processes {} at the Python end", s["procs"])); }
    if w.exited.is_some() && !x.lost && s["conns"].as_object().unwrap().len() > 0 { return Err(format!("procstar has shut down, but its connection stays: {}", s["conns"])); }
    if w.exited.is_none() {
        let have: BTreeSet<String> = s["procs"].as_object().unwrap().keys().cloned().collect();
        if have != ids { return Err(format!("the Python end has processes {have:?}, procstar {ids:?}")); }
        if s["procs"].as_object().unwrap().values().any(|c| *c != x.conn_id) { return Err(format!("processes are of {}, not of {}", s["procs"], x.conn_id)); }
        let c = s["conns"].as_object().unwrap();
        if c.len() != 1 || !c.contains_key(&x.conn_id) || c[&x.conn_id]["open"] != true || c[&x.conn_id]["shutdown"] != x.shutdown || c[&x.conn_id]["pid"] != w.app_ids()[0] { return Err(format!("the connections are {}", s["conns"])); }
    }
    drop(x);
    // Of a process that it has heard of only when the agent registered, it has to ask.
    for id in &ids {
        let r = e.borrow().lives.get(id).and_then(|l| l.last()).map(|l| l.registered).unwrap_or(false);
        if r {
            let k = format!("ask {id} {}", e.borrow().calls.len());
            call(w, e, &k, "request_result", json!([id]), json!({}))?;
            flush(w, e)?;
            succeeds(e, &k)?;
        }
    }
    let mut x = e.borrow_mut();
    let s = x.ask(w, json!({"op": "state"}))?;
    // Updates.
    for (id, lives) in &x.lives {
        let ups: Vec<&J> = s["ups"].as_array().unwrap().iter().filter(|u| u["id"] == **id && !(u["got"].as_array().unwrap().iter().all(|g| g[0] == "error") && (!u["over"].is_null() || u["got"][0].is_array() && u["cur"] == false))).collect();
        let lives: Vec<&Life> = lives.iter().filter(|l| !(l.got.iter().all(|g| g[0] == "error") && l.over.is_some())).collect();
        if ups.len() != lives.len() { return Err(format!("{} processes of ID {id} had updates, expected {}", ups.len(), lives.len())); }
        for (u, l) in ups.iter().zip(&lives) {
            let got = u["got"].as_array().unwrap();
            if got.len() != l.got.len() { return Err(format!("updates of process {id}: {} of {}: {} expected {}", got.len(), l.got.len(), short(&u["got"]), short(&json!(l.got)))); }
            for (a, b) in got.iter().zip(&l.got) { if !same(a, b) { return Err(format!("an update of process {id} is not what was sent: {} instead of {}", short(a), short(b))); } }
            if u["over"].as_str() != l.over.as_deref() { return Err(format!("the updates of process {id} ended {}, expected {:?}", u["over"], l.over)); }
        }
    }
    // The last result of each process that has ended says so.
    for id in &ids {
        let k = w.kid(id);
        let dead = k.map(|k| w.kids[k].phase == Phase::Dead).unwrap_or(false);
        let last = x.lives.get(id).and_then(|l| l.last()).and_then(|l| l.got.iter().rev().find(|g| g[0] == "result"));
        match last {
            None => return Err(format!("the Python end never got a result of process {id}")),
            Some(r) => if dead && r[1]["state"] == "running" { return Err(format!("the Python end was not told of the end of process {id}")) } else if !w.kids.iter().any(|k| r[1]["pid"] == k.pid) && r[1]["state"] != "error" { return Err("a result of an unknown process".into()); },
        }
    }
    if s["pending"].as_array().unwrap().len() > 0 && !x.lost {
        for k in s["pending"].as_array().unwrap() {
            let (m, a) = &x.made[k.as_str().unwrap()];
            // delete() of a process that runs waits for its deletion.
            if m == "delete" && ids.contains(a[0].as_str().unwrap()) { continue; }
            return Err(format!("{m}() does not return"));
        }
    }
    drop(x);
    w.check_reaped()?;
    for id in ids { w.check_one(&id)?; }
    Ok(())
}
/// What has become of a call.
pub fn outcome(e: &E, k: &str) -> R<Done> { e.borrow().calls.get(k).cloned().ok_or(format!("{k} does not return")) }
fn succeeds(e: &E, k: &str) -> R<J> { let d = outcome(e, k)?; match d.exc { None => Ok(d.res), Some(x) => Err(format!("{} fails: {x}", e.borrow().made[k].0)) } }

const AGENT: [&str; 4] = ["--serve", "--agent", "--agent-host", "127.0.0.1"];

//---- E01

pub fn both(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let b = if deep { 3 } else { 2 };
    // A process's whole life by Python calls.
    for del in ["delete", "request_delete"] {
        for st in ["start", "request_start"] {
            v.push(Scn::new(&format!("a life#{st},{del}"), Conf::new(&AGENT), b, move |w| {
                let e = begin(w, json!({}))?;
                check(w, &e)?;
                call(w, &e, "start", st, json!(["a", sp("a")]), json!({}))?;
                flush(w, &e)?;
                let r = succeeds(&e, "start")?;
                if st == "start" && (r["state"] != "running" || r["pid"] != w.kids[w.kid("a").ok_or("not started")?].pid) { return Err(format!("start() returned {}", short(&r))); }
                w.actor(vec![o_write("a", 1, 30), o_write("a", 1, 9), o_exit("a", 3)]);
                w.actor(vec![o_pcall(&e, "fd", "request_fd_data", json!(["a", "stdout"])), o_pcall(&e, "res", "request_result", json!(["a"]))]);
                explore(w, &e)?;
                check(w, &e)?;
                succeeds(&e, "fd")?; succeeds(&e, "res")?;
                call(w, &e, "del", del, json!(["a"]), json!({}))?;
                check(w, &e)?;
                succeeds(&e, "del")?;
                if e.borrow().lives["a"].last().unwrap().over.as_deref() != Some("end") { return Err("no deletion".into()); }
                Ok(())
            }));
        }
    }
    // Everything at once.
    v.push(Scn::new("several processes", Conf::new(&AGENT), b, move |w| {
        let e = begin(w, json!({}))?;
        w.actor(vec![o_call(&e, "sa", "start", json!(["a", sp("a")])), o_pcall(&e, "ra", "request_result", json!(["a"])), o_pcall(&e, "ka", "send_signal", json!(["a", 10])), o_pcall(&e, "da", "request_delete", json!(["a"]))]);
        w.actor(vec![o_post(&e, "b"), o_exit("b", 0), o_get_delete(&e, "b")]);
        w.actor(vec![o_exit("a", 5)]);
        explore(w, &e)?;
        check(w, &e)
    }));
    v.push(Scn::new("the same ID from both sides", Conf::new(&AGENT), b, move |w| {
        let e = begin(w, json!({}))?;
        w.actor(vec![o_call(&e, "sa", "start", json!(["a", sp("a")])), o_exit("a", 1), o_pcall(&e, "da", "request_delete", json!(["a"])), o_call(&e, "sb", "start", json!(["a", sp("a")]))]);
        w.actor(vec![o_post(&e, "a"), o_get_delete(&e, "a")]);
        explore(w, &e)?;
        check(w, &e)
    }));
    // Lost connections.
    for how in ["reset", "eof"] {
        v.push(Scn::new(&format!("a lost connection#{how}"), Conf::new(&AGENT), b, move |w| {
            let e = begin(w, json!({"reconnect_timeout": 300}))?;
            call(w, &e, "s0", "start", json!(["a", sp("a")]), json!({}))?;
            call(w, &e, "s1", "start", json!(["d", sp("d")]), json!({}))?;
            flush(w, &e)?;
            let k = w.kid("d").unwrap(); w.kid_exit(k, 2);
            check(w, &e)?;
            w.actor(vec![o_call(&e, "sb", "request_start", json!(["b", sp("b")])), o_pcall(&e, "dd", "request_delete", json!(["d"]))]);
            w.actor(vec![o_exit("a", 5), o_exit("b", 1), o_post(&e, "c")]);
            w.actor(vec![o_cut(&e, how), o_sleep(&e, 1500)]);
            explore(w, &e)?;
            w.sleep(5000)?;
            e.borrow_mut().tell(w, json!({"op": "sleep", "dt": 5.0}))?;
            check(w, &e)?;
            // And on.
            call(w, &e, "sz", "start", json!(["z", sp("z")]), json!({}))?;
            check(w, &e)?;
            succeeds(&e, "sz")?;
            Ok(())
        }));
    }
    // What the results say.
    for (mode, enc, att) in [("memory", None, true), ("memory", Some("utf-8"), true), ("tempfile", None, false), ("tempfile", Some("utf-8"), true), ("memory", Some("utf-8"), false)] {
        v.push(Scn::new(&format!("results#{mode},{enc:?},{att}"), Conf::new(&AGENT), 0, move |w| {
            let e = begin(w, json!({}))?;
            let large = pat("l", 1, 1_300_000);
            let data: [&[u8]; 7] = [b"", b"text\n", b"\xff\xfe\x00\r\n", "\u{fc}\u{20ac}\u{1f600}".as_bytes(), b"cut \xe2\x82", &[b'x'; 3000], &large];
            let d = data[w.choose("output", data.len(), 0)];
            let (how, n) = [("exit", 0), ("runs", 0), ("exit", 1), ("exit", 255), ("sig", 1), ("sig", 9), ("sig", 11), ("sig", 34), ("fails", libc::ENOENT), ("fails", libc::EACCES)][w.choose("end", if d.len() > 9999 { 2 } else { 10 }, 0)];
            if how == "fails" { w.exec_errno = Some(Rc::new(move |_| n)); }
            let s = json!({"raw": pspec("a", &[("stdin", json!({"null": {}})), ("stdout", capture(mode, enc, att)), ("stderr", json!({"dup": {"fd": 1}})), ("7", capture("memory", None, true))])});
            call(w, &e, "start", "start", json!(["a", s]), json!({}))?;
            flush(w, &e)?;
            succeeds(&e, "start")?;
            if how != "fails" {
                let k = w.kid("a").unwrap();
                if !d.is_empty() { for c in d.chunks(50_000) { w.emit_bytes("a", 1, c)?; w.settle()?; } w.emit_bytes("a", 7, b"more")?; flush(w, &e)?; }
                if how == "exit" { w.kid_exit(k, n); }
                if how == "sig" { w.kid_raise(k, n); }
            }
            check(w, &e)?;
            let full = d.len() as i64;
            let f = w.choose("interval", 6, 0);
            let iv = [json!([0, null]), json!([1, null]), json!([0, 3]), json!([2, 5]), json!([full, null]), json!([0, full])][f].clone();
            let fd = ["stdout", "1", "7", "stderr"][(f + n as usize) % 4];
            call(w, &e, "fd", "request_fd_data", json!(["a", fd, iv]), json!({}))?;
            call(w, &e, "fd2", "request_fd_data", json!(["a", "stdout"]), json!({}))?;
            flush(w, &e)?;
            succeeds(&e, "fd")?; succeeds(&e, "fd2")?;
            check(w, &e)?;
            if how != "fails" && mode.len() > 0 { let x = e.borrow(); let l = x.lives["a"].last().unwrap(); if !l.got.iter().any(|g| g[0] == "fd" && g[1] == "stdout" && g[2] == 0 && g[3] == full) { return Err(format!("no data of all of stdout: {}", short(&json!(l.got.iter().filter(|g| g[0] != "result").collect::<Vec<_>>())))); } }
            if how == "runs" { return Ok(()); }
            call(w, &e, "del", "delete", json!(["a"]), json!({}))?;
            check(w, &e)?;
            succeeds(&e, "del").map(|_| ())
        }));
    }
    // Shutting down.
    for sig in [15, 2, 3, 10] {
        v.push(Scn::new(&format!("shut down by signal {sig}"), Conf::new(&AGENT), b, move |w| {
            let e = begin(w, json!({}))?;
            call(w, &e, "s0", "start", json!(["a", sp("a")]), json!({}))?;
            flush(w, &e)?;
            w.actor(vec![op(&format!("signal {sig}"), move |w| { w.raise(sig); Ok(()) })]);
            w.actor(vec![o_call(&e, "sb", "start", json!(["b", sp("b")])), o_exit("b", 0), o_pcall(&e, "db", "request_delete", json!(["b"])), o_call(&e, "sc", "start", json!(["c", sp("c")]))]);
            w.actor(vec![o_exit("a", 5), o_pcall(&e, "da", "request_delete", json!(["a"]))]);
            explore(w, &e)?;
            check(w, &e)?;
            if sig != 10 {
                // It ends after a time.
                for _ in 0..3 {
                    w.sleep(6000)?;
                    e.borrow_mut().tell(w, json!({"op": "sleep", "dt": 6.0}))?;
                    check(w, &e)?;
                }
                if w.exited.is_none() { return Err("procstar has not shut down".into()); }
            }
            // New processes are refused at either end.
            if e.borrow().shutdown != "active" {
                let n = w.kids.len();
                call(w, &e, "no", "start", json!(["n", sp("n")]), json!({}))?;
                flush(w, &e)?;
                match outcome(&e, "no")?.exc.as_deref() { Some("NoOpenConnectionInGroup") => {}, Some(x) => return Err(format!("start() raises {x}")), None => return Err("start() on an agent that shuts down".into()) }
                if w.kids.len() > n { return Err("a process was started by an agent that shuts down".into()); }
            } else if w.exited.is_none() { return Err("the Python end does not know that the agent shuts down".into()); }
            Ok(())
        }));
    }
    // Another server.
    v.push(Scn::new("a restarted server", Conf::new(&AGENT), b, move |w| {
        let e = begin(w, json!({}))?;
        call(w, &e, "s0", "start", json!(["a", sp("a")]), json!({}))?;
        call(w, &e, "s1", "start", json!(["d", sp("d")]), json!({}))?;
        flush(w, &e)?;
        let conn = e.borrow().conn_id.clone();
        w.actor(vec![o_call(&e, "sb", "request_start", json!(["b", sp("b")])), o_exit("b", 1)]);
        w.actor(vec![o_write("a", 1, 30), o_exit("a", 5)]);
        let e2 = e.clone();
        w.actor(vec![op("restart", move |w| restart(w, &e2)), o_sleep(&e, 1500)]);
        explore(w, &e)?;
        w.sleep(5000)?;
        e.borrow_mut().tell(w, json!({"op": "sleep", "dt": 5.0}))?;
        check(w, &e)?;
        if e.borrow().conn_id != conn { return Err("the connection ID has changed".into()); }
        for id in ["a", "d"] {
            call(w, &e, id, "reconnect", json!([conn, id]), json!({}))?;
            flush(w, &e)?;
            succeeds(&e, id)?;
        }
        let k = w.kid("d").unwrap(); w.kid_exit(k, 7);
        check(w, &e)?;
        call(w, &e, "sz", "start", json!(["z", sp("z")]), json!({}))?;
        check(w, &e)?;
        succeeds(&e, "sz").map(|_| ())
    }));
    // Groups.
    v.push(Scn::new("groups", Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1", "--group-id", "g 1"]), 0, move |w| {
        let e = begin(w, json!({}))?;
        check(w, &e)?;
        let (g, ok) = [(json!({}), false), (json!({"group_id": "g 1"}), true), (json!({"group_id": "g"}), false), (json!({"group_id": "default"}), false), (json!({"group_id": "g 1", "conn_timeout": 1}), true)][w.choose("group", 5, 0)].clone();
        call(w, &e, "s", "start", json!(["a", sp("a")]), g)?;
        flush(w, &e)?;
        match outcome(&e, "s")?.exc.as_deref() { None if ok => {}, Some("NoOpenConnectionInGroup") if !ok => {}, x => return Err(format!("start() on another group: {x:?}")) }
        if w.kids.is_empty() == ok { return Err("started though of another group".into()); }
        check(w, &e)
    }));
    v
}

//---- E02

/// A call of the HTTP client, which is over at once.
pub fn hcall(w: &mut World, e: &E, m: &str, a: J, sync: bool) -> R<Done> {
    w.settle()?;
    let mut x = e.borrow_mut();
    x.take(w)?;
    let k = format!("http {}", x.calls.len());
    x.made.insert(k.clone(), (m.to_string(), a.clone()));
    if w.keep { w.log.push(format!("call {m} {}", short(&a))); }
    let n = if m == "send_signal" { 2 } else { 9 };
    let a: Vec<J> = a.as_array().unwrap().iter().take(n).cloned().collect();
    x.tell(w, json!({"op": if sync { "http_sync" } else { "http" }, "k": k, "m": m, "a": a}))?;
    x.calls.get(&k).cloned().ok_or(format!("{m}() does not return"))
}
const ROUTES: [&str; 3] = ["agent", "http", "post"];
fn py_start(w: &mut World, e: &E, route: &str, specs: &[(&str, J, J)]) -> R {
    for (id, _, canon) in specs { w.expect_procs(&json!({*id: canon})); }
    if route == "post" {
        let all: serde_json::Map<String, J> = specs.iter().map(|(id, s, _)| (id.to_string(), s.clone())).collect();
        call(w, e, "jso", "to_jso", json!([all]), json!({}))?;
        let j = succeeds(e, "jso")?;
        let r = w.call("POST", "/procs", Some(&j))?;
        if r.status != 200 { return Err(format!("the spec {} is rejected: {}", short(&json!(all)), String::from_utf8_lossy(&r.body))); }
    } else {
        for (id, s, _) in specs {
            if route == "agent" {
                call(w, e, id, "start", json!([id, s]), json!({}))?;
                flush(w, e)?;
                succeeds(e, id).map_err(|x| format!("{x} for {}", short(s)))?;
            } else {
                let d = hcall(w, e, "start_proc", json!([s, id]), false)?;
                if let Some(x) = d.exc { return Err(format!("start_proc() of {} fails: {x}", short(s))); }
                if d.res != *id { return Err(format!("start_proc() returns {}", d.res)); }
            }
        }
    }
    flush(w, e)
}
fn started(w: &World, argv: &[&str], env: Option<&[(&str, &str)]>) -> R {
    let Some(k) = w.kids.iter().position(|k| k.execd && k.exec.as_ref().unwrap().argv.first().map(|x| x == argv[0].as_bytes()).unwrap_or(false)) else { return Err(format!("{argv:?} is not executed")); };
    let x = w.kids[k].exec.clone().unwrap();
    let t = |l: &Vec<Vec<u8>>| l.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>();
    if x.exe != argv[0].as_bytes() || x.argv != argv.iter().map(|a| a.as_bytes().to_vec()).collect::<Vec<_>>() { return Err(format!("executes {:?} with {:?}, not {argv:?}", String::from_utf8_lossy(&x.exe), t(&x.argv))); }
    if let Some(env) = env {
        let mut have = t(&x.env); have.sort();
        if !env.iter().any(|x| x.0 == "PATH") { have.retain(|x| !x.starts_with("PATH=")); }
        let mut want: Vec<String> = env.iter().map(|(k, v)| format!("{k}={v}")).collect(); want.sort();
        if have != want { return Err(format!("environment is {have:?}, not {want:?}")); }
    }
    Ok(())
}
fn own_conf() -> Conf { Conf::new(&AGENT).env("HOME", "/h").env("SHELL", "/bin/sh").env("USER", "me").env("A", "1").env("B", "2") }
/// All captures get output, then the processes end.
fn play(w: &mut World, e: &E, ids: &[&str]) -> R {
    for id in ids {
        let t: Vec<i32> = w.m.procs[*id].table.iter().filter(|(_, t)| matches!(t, Tgt::Mem(_) | Tgt::Temp(_))).map(|x| *x.0).collect();
        for n in &t { w.emit(id, *n, 10 + *n as usize % 50)?; }
    }
    flush(w, e)?;
    w.check_list()?;
    for id in ids { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); }
    flush(w, e)?;
    w.check_list()
}
/// What make_proc adds.
fn made_fds(given: &[(String, J)]) -> Vec<J> {
    let mut v: Vec<J> = given.iter().map(|(n, f)| json!([n, f])).collect();
    for (n, f) in [("stdin", json!({"null": {}})), ("stdout", capture("memory", Some("utf-8"), true)), ("stderr", capture("memory", Some("utf-8"), true))] {
        if !given.iter().any(|(g, _)| fdnum(g) == fdnum(n)) { v.push(json!([n, f])); }
    }
    v
}
fn builders(w: &World) -> Vec<(J, J)> {
    let mut v = vec![(json!({"class": "Inherit"}), json!("inherit")), (json!({"class": "Close"}), json!("close")), (json!({"class": "Null"}), json!({"null": {}}))];
    for f in ["Default", "Read", "Write", "Append", "ReadWrite"] { v.push((json!({"class": "Null", "flags": f}), json!({"null": {"flags": f}}))); }
    let p = format!("{}/f", w.scratch());
    v.push((json!({"class": "File", "path": p}), json!({"file": {"path": p}})));
    for f in ["Default", "Read", "Write", "Create", "Replace", "CreateAppend", "Append", "ReadWrite"] { v.push((json!({"class": "File", "path": p, "flags": f, "mode": 0o640}), json!({"file": {"path": p, "flags": f, "mode": 0o640}}))); }
    for m in ["tempfile", "memory"] { for enc in [None, Some("utf-8")] { for att in [true, false] {
        v.push((json!({"class": "Capture", "mode": m, "encoding": enc, "attached": att}), capture(m, enc, att)));
        if att { v.push((json!({"class": "Capture", "mode": m, "encoding": enc}), capture(m, enc, att))); }
    } } }
    v
}

pub fn builders_mean(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for route in ROUTES {
        v.push(Scn::new(&format!("one fd via {route}"), own_conf(), 0, move |w| {
            let e = begin(w, json!({}))?;
            let key = ["stdin", "stdout", "stderr", "#0", "#1", "#2", "0", "1", "2", "3", "#3", "17"][w.choose("fd", if deep { 12 } else { 10 }, 0)];
            let b = builders(w);
            let (py, canon) = b[w.choose("builder", b.len(), 0)].clone();
            let f = format!("{}/f", w.scratch());
            let flags = canon["file"]["flags"].as_str().unwrap_or("").to_string();
            let n = fdname(fdnum(key.trim_start_matches('#')).unwrap());
            let creates = ["Create", "CreateAppend"].contains(&&flags[..]);
            if canon["file"].is_object() && !creates { use std::os::unix::fs::PermissionsExt; std::fs::write(&f, b"here").unwrap(); std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o666)).unwrap(); }
            let spec = json!({"make": ["a", "1"], "fds": [[key, py]]});
            let canon = json!({"argv": ["a", "1"], "fds": made_fds(&[(n, canon)])});
            w.settle()?;
            let own = w.fds();
            py_start(w, &e, route, &[("a", spec, canon)])?;
            started(w, &["a", "1"], Some(&[("HOME", "/h"), ("SHELL", "/bin/sh"), ("USER", "me")]))?;
            check_table(w, "a", &own)?;
            if creates { use std::os::unix::fs::MetadataExt; let m = std::fs::metadata(&f).unwrap().mode() & 0o777; if m != 0o640 { return Err(format!("the file was created with mode {m:o}")); } }
            play(w, &e, &["a"])?;
            check(w, &e)
        }));
        if deep {
            v.push(Scn::new(&format!("two fds via {route}"), own_conf(), 0, move |w| {
                let e = begin(w, json!({}))?;
                let b: Vec<(J, J)> = builders(w).into_iter().filter(|b| b.1["file"].is_null()).collect();
                let (k1, k2) = [("stdout", "stderr"), ("stderr", "stdin"), ("4", "stdout"), ("#1", "3")][w.choose("fds", 4, 0)];
                let (p1, c1) = b[w.choose("first", b.len(), 0)].clone();
                let (p2, c2) = b[w.choose("second", b.len(), 0)].clone();
                let n = |k: &str| fdname(fdnum(k.trim_start_matches('#')).unwrap());
                let spec = json!({"make": ["a", "1"], "fds": [[k1, p1], [k2, p2]]});
                let canon = json!({"argv": ["a", "1"], "fds": made_fds(&[(n(k1), c1), (n(k2), c2)])});
                w.settle()?;
                let own = w.fds();
                py_start(w, &e, route, &[("a", spec, canon)])?;
                started(w, &["a", "1"], None)?;
                check_table(w, "a", &own)?;
                play(w, &e, &["a"])?;
                check(w, &e)
            }));
        }
        v.push(Scn::new(&format!("duplicates via {route}"), own_conf(), 0, move |w| {
            let e = begin(w, json!({}))?;
            let to = w.choose("of", 3, 0);
            let raw = w.choose("class", 2, 0) == 0;
            let b = builders(w);
            let caps: Vec<&(J, J)> = b.iter().filter(|b| b.1["capture"].is_object()).collect();
            let (py, c) = caps[w.choose("builder", caps.len(), 0)].clone();
            let fds = json!([["stdin", {"class": "Null"}], ["stdout", py], ["stderr", {"class": "Dup", "fd": to}], ["5", {"class": "Dup", "fd": 2}]]);
            let cf = json!([["stdin", {"null": {}}], ["stdout", c], ["stderr", {"dup": {"fd": to}}], ["5", {"dup": {"fd": 2}}]]);
            let spec = if raw { json!({"argv": ["a"], "fds": fds}) } else { json!({"make": ["a"], "fds": fds}) };
            w.settle()?;
            let own = w.fds();
            py_start(w, &e, route, &[("a", spec, json!({"argv": ["a"], "fds": cf}))])?;
            started(w, &["a"], if raw { Some(&[("HOME", "/h"), ("SHELL", "/bin/sh"), ("USER", "me"), ("A", "1"), ("B", "2")]) } else { None })?;
            check_table(w, "a", &own)?;
            play(w, &e, &["a"])?;
            check(w, &e)
        }));
        v.push(Scn::new(&format!("environment via {route}"), own_conf(), 0, move |w| {
            let e = begin(w, json!({}))?;
            let base = [("HOME", "/h"), ("SHELL", "/bin/sh"), ("USER", "me"), ("A", "1"), ("B", "2")];
            let make = w.choose("form", 2, 0) == 0;
            let mut vars = serde_json::Map::new();
            for (k, vals) in [("A", vec![json!("x=y"), json!(null), json!(true)]), ("HOME", vec![json!(""), json!(null), json!(true)]), ("N", vec![json!("\u{20ac} n"), json!(5), json!(null), json!(true)])] {
                let vals: Vec<J> = vals.into_iter().filter(|v| make || *v != json!(true)).collect();
                let c = w.choose("var", 1 + vals.len(), 0);
                if c > 0 { vars.insert(k.into(), vals[c - 1].clone()); }
            }
            let inh = if make { Some(json!(["HOME", "SHELL", "USER"])) } else { [None, Some(json!(true)), Some(json!(false)), Some(json!([])), Some(json!(["A", "NOPE", "HOME"]))][w.choose("inherit", 5, 0)].clone() };
            let mut env = vec![];
            for (k, val) in base {
                let take = match &inh { None => true, Some(J::Bool(b)) => *b, Some(l) => l.as_array().unwrap().iter().any(|n| n == k) };
                match vars.get(k) { Some(J::Bool(true)) => env.push((k, val.to_string())), Some(J::Null) => {}, Some(J::String(s)) => env.push((k, s.clone())), Some(x) => env.push((k, x.to_string())), None => if take { env.push((k, val.to_string())) } }
            }
            match vars.get("N") { Some(J::String(s)) => env.push(("N", s.clone())), Some(J::Number(n)) => env.push(("N", n.to_string())), _ => {} }
            let mut spec = if make { json!({"make": ["a"]}) } else { json!({"argv": ["a"], "fds": [["stdout", {"class": "Capture", "mode": "memory", "encoding": null}]], "env": {}}) };
            if make { if !vars.is_empty() { spec["env_vars"] = J::Object(vars.clone()); } }
            else { if !vars.is_empty() { spec["env"]["vars"] = J::Object(vars.clone()); } if let Some(i) = &inh { spec["env"]["inherit"] = i.clone(); } }
            let fds = if make { made_fds(&[]) } else { vec![json!(["stdout", capture("memory", None, true)])] };
            py_start(w, &e, route, &[("a", spec, json!({"argv": ["a"], "fds": fds}))])?;
            let env: Vec<(&str, &str)> = env.iter().map(|(k, v)| (*k, &v[..])).collect();
            started(w, &["a"], Some(&env))?;
            play(w, &e, &["a"])?;
            check(w, &e)
        }));
        v.push(Scn::new(&format!("commands via {route}"), own_conf(), 0, move |w| {
            let e = begin(w, json!({}))?;
            let many: Vec<String> = std::iter::once("a".to_string()).chain((0..24).map(|i| format!("{i}{}", "\u{20ac}".repeat(30_000)))).collect();
            let forms: Vec<(J, Vec<&str>)> = vec![
                (json!("echo 'a b' | cat; exit 3"), vec!["/usr/bin/bash", "-c", "echo 'a b' | cat; exit 3"]),
                (json!(""), vec!["/usr/bin/bash", "-c", ""]),
                (json!("\u{fc}\n$X\t\"q\""), vec!["/usr/bin/bash", "-c", "\u{fc}\n$X\t\"q\""]),
                (json!(["a"]), vec!["a"]),
                (json!(["a", "", " ", "-x", "\u{4e2d}\n"]), vec!["a", "", " ", "-x", "\u{4e2d}\n"]),
                (json!(["a", 5, -1, 2.5]), vec!["a", "5", "-1", "2.5"]),
                (json!(many), many.iter().map(|x| &x[..]).collect()),
            ];
            let (py, argv) = forms[w.choose("command", forms.len(), 0)].clone();
            let make = py.is_string() || w.choose("form", 2, 0) == 0;
            let spec = if make { json!({"make": py}) } else { json!({"argv": py}) };
            let id = argv[0];
            py_start(w, &e, route, &[(id, spec, json!({"argv": argv, "fds": if make { made_fds(&[]) } else { vec![] }}))])?;
            started(w, &argv, None)?;
            play(w, &e, &[id])
        }));
    }
    v.push(Scn::new("options that mean nothing", own_conf(), 0, move |w| {
        let e = begin(w, json!({}))?;
        let bad = [json!({"class": "Null", "flags": "read"}), json!({"class": "Null", "flags": ""}), json!({"class": "File", "path": "/x", "flags": "Truncate"}), json!({"class": "File", "path": "/x", "flags": "default"}), json!({"class": "File", "path": "/x", "flags": null}),
            json!({"class": "Dup", "fd": -1}), json!({"class": "Dup", "fd": "x"}), json!({"class": "Capture", "mode": "file", "encoding": null}), json!({"class": "Capture", "mode": "memory", "encoding": "latin-1"}), json!({"class": "Capture", "mode": null, "encoding": "utf-8"})];
        let f = &bad[w.choose("fd", bad.len(), 0)];
        call(w, &e, "bad", "start", json!(["a", {"make": ["a"], "fds": [["stdout", f]]}]), json!({}))?;
        flush(w, &e)?;
        let exc = e.borrow().calls.get("bad").and_then(|d| d.exc.clone());
        if exc.as_deref() != Some("ValueError") { return Err(format!("{} is not refused: {exc:?}", short(f))); }
        let key = ["stdfoo", "-1", "#-1", "", "1.5"][w.choose("key", 5, 0)];
        call(w, &e, "badkey", "start", json!(["a", {"make": ["a"], "fds": [[key, {"class": "Close"}]]}]), json!({}))?;
        flush(w, &e)?;
        let exc = e.borrow().calls.get("badkey").and_then(|d| d.exc.clone());
        if exc.as_deref() != Some("ValueError") { return Err(format!("fd {key} is not refused: {exc:?}")); }
        if !w.kids.is_empty() { return Err("a refused spec was started".into()); }
        check(w, &e)
    }));
    v.push(Scn::new("pipes", own_conf(), 0, move |w| {
        let e = begin(w, json!({}))?;
        let (k1, k2, name) = [("stdout", "stdin", "stdout"), ("#1", "#0", "stdout"), ("1", "0", "1"), ("stdout", "stdin", "1"), ("4", "7", "4"), ("#4", "#0", "4"), ("2", "stdin", "stderr")][w.choose("fds", 7, 0)];
        let n = |k: &str| fdname(fdnum(k.trim_start_matches('#')).unwrap());
        let s1 = json!({"make": ["a"], "fds": [[k1, {"class": "PipeWrite"}]]});
        let s2 = json!({"make": ["b"], "fds": [[k2, {"class": "PipeRead", "proc_id": "a", "fd": name}]]});
        let c1 = json!({"argv": ["a"], "fds": made_fds(&[(n(k1), json!("pipe-write"))])});
        let c2 = json!({"argv": ["b"], "fds": made_fds(&[(n(k2), json!({"pipe-read": {"proc_id": "a", "fd": n(k1)}}))])});
        w.settle()?;
        let own = w.fds();
        py_start(w, &e, "post", &[("a", s1, c1), ("b", s2, c2)])?;
        started(w, &["a"], None)?; started(w, &["b"], None)?;
        check_table(w, "a", &own)?; check_table(w, "b", &own)?;
        let (a, b) = (w.kid("a").unwrap(), w.kid("b").unwrap());
        w.kid_write(a, fdnum(&n(k1)).unwrap(), b"through");
        if w.kid_read(b, fdnum(&n(k2)).unwrap(), 100) != Ok(b"through".to_vec()) { return Err("the pipe does not connect them".into()); }
        play(w, &e, &["a", "b"])?;
        check(w, &e)
    }));
    v
}

//---- E03

/// The truth of one call of the HTTP client.
fn client(w: &mut World, e: &E, m: &str, a: J) -> R {
    let id = a[0].as_str().unwrap_or("").to_string();
    let lo = w.snap();
    let there = w.m.procs.contains_key(&id);
    let nk = w.kills.len();
    let d = match m {
        "start_proc" => { let id = a[1].as_str().unwrap(); if !w.m.procs.contains_key(id) { w.expect_procs(&json!({id: a[0]["raw"]})); } let d = hcall(w, e, m, a.clone(), false)?; d }
        "sync get_procs" => hcall(w, e, "get_procs", json!([]), true)?,
        _ => hcall(w, e, m, a.clone(), false)?,
    };
    let what = format!("{m}({})", short(&a));
    let fails = |why: &str| -> R { match &d.exc { None => Err(format!("{what} returns though {why}")), Some(x) if x == "HTTPStatusError" || x == "HTTPError" => Ok(()), Some(x) => Err(format!("{what} raises {x}: {}", d.msg)) } };
    let succ = || -> R { match &d.exc { None => Ok(()), Some(x) => Err(format!("{what} raises {x}: {}", d.msg)) } };
    let dead = |w: &World| w.kid(&id).map(|k| w.kids[k].phase == Phase::Dead).unwrap_or(false);
    match m {
        "start_proc" => { if lo.dead.contains_key(a[1].as_str().unwrap()) { return fails("the ID is in use"); } succ()?; if d.res != a[1] { return Err(format!("{what} returns {}", d.res)); } w.kid(a[1].as_str().unwrap()).map(|_| ()).ok_or(format!("{what} started nothing")) }
        "get_procs" | "sync get_procs" => {
            succ()?;
            let m = d.res.as_object().ok_or("not a dict")?;
            let have: Vec<&String> = m.keys().collect(); let want: Vec<&String> = w.m.procs.keys().collect();
            if have != want { return Err(format!("{what} has {have:?}, expected {want:?}")); }
            for (id, r) in m { w.check_res(id, r, &lo)?; }
            Ok(())
        }
        _ if !there => fails("there is no such process"),
        "get_proc" => { succ()?; w.check_res(&id, &d.res, &lo) }
        "delete_proc" => {
            if dead(w) { succ()?; w.forget(&id); Ok(()) } else { fails("the process runs") }
        }
        "send_signal" => {
            let sent = w.kills[nk..].to_vec();
            if dead(w) && lo.dead[&id] { if !sent.is_empty() { return Err("a signal to a dead process".into()); } return fails("the process has ended"); }
            let n = a[2].as_i64().unwrap();
            succ()?;
            let pid = w.kids[w.kid(&id).unwrap()].pid;
            if sent != [(pid, n as i32)] { return Err(format!("{what} sent {sent:?} to {pid}")); }
            Ok(())
        }
        "get_output_data" => {
            let fd = match &a[1] { J::String(s) => fdnum(s).unwrap(), x => x.as_i64().unwrap() as i32 };
            let Some(c) = w.m.procs[&id].caps.get(&fd).cloned() else { return if d.exc.is_none() { if d.res == json!("") || d.res == json!({"$b": []}) { Ok(()) } else { Err(format!("{what} of what is not captured returns {}", short(&d.res))) } } else { fails("it is not captured") } };
            succ()?;
            let full = w.m.out[&(id.clone(), fd)].clone();
            let ok = if c.text { d.res == json!(String::from_utf8_lossy(&full)) } else { d.res["$b"] == json!(full) };
            if ok { Ok(()) } else { Err(format!("{what} returns {} for {:?}", short(&d.res), full.iter().take(50).collect::<Vec<_>>())) }
        }
        _ => unreachable!("{m}"),
    }
}
fn o_client(e: &E, m: &'static str, a: J) -> Op {
    let e = e.clone();
    // The sent signal goes in a[2] for the oracle only.
    op(&format!("{m} {}", short(&a)), move |w| client(w, &e, m, a.clone()))
}

pub fn http_client(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let b = if deep { 4 } else { 2 };
    v.push(Scn::new("calls", Conf::serve(), b, move |w| {
        let e = begin(w, json!({}))?;
        w.actor(vec![o_client(&e, "start_proc", json!([{"raw": cap("a")}, "a"])), o_client(&e, "get_proc", json!(["a"])), o_client(&e, "send_signal", json!(["a", 10, 10])), o_client(&e, "get_output_data", json!(["a", "stdout"])), o_client(&e, "delete_proc", json!(["a"])), o_client(&e, "get_proc", json!(["a"]))]);
        w.actor(vec![o_write("a", 1, 20), o_write("a", 1, 3), o_exit("a", 3)]);
        w.actor(vec![o_client(&e, "get_procs", json!([])), o_client(&e, "start_proc", json!([{"raw": cap("b")}, "b"])), o_client(&e, "sync get_procs", json!([])), o_raise("b", 9), o_client(&e, "get_proc", json!(["b"])), o_client(&e, "start_proc", json!([{"raw": cap("a")}, "a"]))]);
        w.interleave(1, false, &|w| w.check_reaped())?;
        w.check_list()
    }));
    v.push(Scn::new("failing starts", Conf::serve(), 0, move |w| {
        let e = begin(w, json!({}))?;
        client(w, &e, "start_proc", json!([{"raw": cap("old")}, "old"]))?;
        let bad = fds::rejects();
        let (name, s) = &bad[w.choose("spec", bad.len(), 0)];
        let id = if s == &json!("old") { "old" } else { "a" };
        let s = if id == "old" { cap("old") } else { s.clone() };
        let n0 = w.kids.len();
        let d = hcall(w, &e, "start_proc", json!([{"raw": s}, id]), false)?;
        match &d.exc { Some(x) if x == "HTTPStatusError" => (), Some(x) => return Err(format!("start_proc() with a bad spec ({name}) raises {x}: {}", d.msg)), None => return Err(format!("start_proc() with a bad spec ({name}) returns {}", d.res)) }
        w.settle()?;
        if w.kids.len() != n0 { return Err(format!("start_proc() fails ({name}), but a process was started")); }
        client(w, &e, "get_procs", json!([]))?;
        client(w, &e, "start_proc", json!([{"raw": cap("a")}, "a"]))?;
        client(w, &e, "sync get_procs", json!([]))
    }));
    v.push(Scn::new("new identifiers", Conf::serve(), 0, move |w| {
        let e = begin(w, json!({}))?;
        let mut ids = vec![];
        for n in 0..3 {
            let s = pspec("a", &[("stdout", capture("memory", None, true))]);
            let n0 = w.kids.len();
            let d = hcall(w, &e, "start_proc", json!([{"raw": s}]), false)?;
            if let Some(x) = d.exc { return Err(format!("start_proc() without an ID raises {x}: {}", d.msg)); }
            let id = d.res.as_str().ok_or("start_proc() without an ID returns none")?.to_string();
            if id.is_empty() || ids.contains(&id) { return Err(format!("start_proc() without an ID returns {id:?}, after {ids:?}")); }
            if w.kids.len() != n0 + 1 { return Err("start_proc() without an ID started nothing, or more".into()); }
            ids.push(id);
            let all = hcall(w, &e, "get_procs", json!([]), n == 1)?;
            let mut have: Vec<&String> = all.res.as_object().ok_or("not a dict")?.keys().collect(); have.sort();
            let mut want: Vec<&String> = ids.iter().collect(); want.sort();
            if have != want { return Err(format!("the processes are {have:?}, started were {want:?}")); }
        }
        Ok(())
    }));
    v.push(Scn::new("identifiers", Conf::serve(), 0, move |w| {
        let e = begin(w, json!({}))?;
        let ids = ["a b", "a/b", "%41", "%", "%zz", "50%", "a?b=c", "#f", "\u{fc}\u{4e2d}", "a+b", "~-._", "a;b,c=d&e", "a\\b", "\"'<>", "signals", "data", "procs", "{}[]|^`", "\u{7f}\u{1}", "a%2Fb", ":id", "*", "x//y", "..a", "a:b@c!$()"];
        let id = ids[w.choose("id", ids.len(), 0)];
        let mut s = cap(id); s["exe"] = json!("/px/a");
        let other = if id == "%41" { "A" } else { "B" };
        client(w, &e, "get_proc", json!([id]))?;
        client(w, &e, "start_proc", json!([{"raw": cap(other)}, other]))?;
        client(w, &e, "start_proc", json!([{"raw": s}, id]))?;
        client(w, &e, "get_proc", json!([id]))?;
        w.emit(id, 1, 33)?; w.settle()?;
        client(w, &e, "get_output_data", json!([id, "stdout"]))?;
        client(w, &e, "send_signal", json!([id, 12, 12]))?;
        client(w, &e, "delete_proc", json!([id]))?;
        let k = w.kid(id).unwrap(); w.kid_exit(k, 1); w.settle()?;
        client(w, &e, "get_proc", json!([id]))?;
        client(w, &e, "delete_proc", json!([id]))?;
        client(w, &e, "get_proc", json!([id]))?;
        client(w, &e, "get_proc", json!([other]))?;
        client(w, &e, "sync get_procs", json!([]))
    }));
    v.push(Scn::new("output", Conf::serve(), 0, move |w| {
        let e = begin(w, json!({}))?;
        let mode = ["memory", "tempfile"][w.choose("mode", 2, 0)];
        let enc = [None, Some("utf-8")][w.choose("encoding", 2, 0)];
        let att = w.choose("attached", 2, 0) == 0;
        let fd = w.choose("fd", 4, 0);
        let names = [json!("stdout"), json!("1"), json!(1), json!(5)];
        let n = if fd == 3 { 5 } else { 1 };
        let big = pat("x", 1, 200_000);
        let data: Vec<&[u8]> = vec![b"", b"text", b"\xff\xfe\x00", b"\xc3\xbc\xe2\x82\xac", b"\xef\xbb\xbfbom", b"a\r\nb\rc\n", &big, b"cut \xe2\x82"];
        let d = data[w.choose("data", data.len(), 0)];
        client(w, &e, "start_proc", json!([{"raw": pspec("a", &[(&fdname(n), capture(mode, enc, att))])}, "a"]))?;
        client(w, &e, "get_output_data", json!(["a", names[fd]]))?;
        if !d.is_empty() { for c in d.chunks(50_000) { w.emit_bytes("a", n, c)?; w.settle()?; } }
        client(w, &e, "get_output_data", json!(["a", names[fd]]))?;
        client(w, &e, "get_output_data", json!(["a", "stderr"]))?;
        let k = w.kid("a").unwrap(); w.kid_exit(k, 1); w.settle()?;
        client(w, &e, "get_output_data", json!(["a", names[fd]]))?;
        client(w, &e, "get_proc", json!(["a"]))
    }));
    v.push(Scn::new("signals", Conf::serve(), 0, move |w| {
        let e = begin(w, json!({}))?;
        client(w, &e, "start_proc", json!([{"raw": cap("a")}, "a"]))?;
        let k = w.kid("a").unwrap();
        for n in 1..65 { if ![9, 19, 32, 33].contains(&n) { w.kid_ignore(k, n); } }
        let c = w.choose("signal", 31 + 4, 0);
        let (s, n) = match c { 31 => (json!("SIGUSR1"), 10), 32 => (json!("SIGTERM"), 15), 33 => (json!("9"), 9), 34 => (json!(64), 64), n => (json!(n + 1), n as i64 + 1) };
        client(w, &e, "send_signal", json!(["a", s, n]))?;
        w.settle()?;
        if n == 19 { w.kid_cont(k); }
        client(w, &e, "get_proc", json!(["a"]))
    }));
    v
}
