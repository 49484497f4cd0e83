//! The connection to an agent server.
use crate::engine::{Scn, R};
use crate::model::*;
use crate::msgpack::V;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const MS: i64 = 1_000_000;
const AGENT: [&str; 3] = ["--agent", "--agent-host", "127.0.0.1"];
const BOTH: [&str; 4] = ["--serve", "--agent", "--agent-host", "127.0.0.1"];
fn cap1(id: &str) -> J { pspec(id, &[("stdout", capture("memory", None, true))]) }

//---- What a server may be told

#[derive(Clone, Debug)]
enum Q { Ids, Res(String), Fd(String), Sig(String), Del(String), Start(Vec<String>), Bad }
/// Whether a process exists, and whether it has ended.
type Truth = BTreeMap<String, bool>;

#[derive(Default)]
struct Conn {
    q: Vec<Q>, st: BTreeSet<(usize, BTreeMap<String, u8>)>, told: Vec<String>, dead: bool,
    // The state when all was last known to have been told, and what was touched since.
    before: Truth, touched: BTreeSet<String>, fresh: BTreeSet<String>, idle: bool,
}
#[derive(Default)]
pub struct Sv {
    conns: BTreeMap<usize, Conn>,
    before: Truth, touched: BTreeSet<String>, fresh: BTreeSet<String>,
    https: Vec<(usize, String, bool)>,     // requests to start (true) or delete
    idle: (bool, bool),
    conn_id: Option<String>,
    pub want: J,                            // of the registration, if not null
}
pub type S = Rc<RefCell<Sv>>;
pub fn sv() -> S { Rc::new(RefCell::new(Sv::default())) }

#[derive(Clone)]
struct Ctx<'b> { before: Truth, after: &'b Truth, touched: BTreeSet<String>, idle: (bool, bool) }
impl<'b> Ctx<'b> {
    fn may_exist(&self, id: &str) -> bool { self.before.contains_key(id) || self.after.contains_key(id) || self.touched.contains(id) }
    fn may_lack(&self, id: &str) -> bool { !self.before.contains_key(id) || !self.after.contains_key(id) || self.touched.contains(&format!("-{id}")) }
    fn may_run(&self, id: &str) -> bool { self.before.get(id) == Some(&false) || self.after.get(id) == Some(&false) || self.touched.contains(id) && !self.before.contains_key(id) }
    fn may_dead(&self, id: &str) -> bool { self.before.get(id) == Some(&true) || self.after.get(id) == Some(&true) || self.touched.contains(id) && !self.after.contains_key(id) || self.touched.contains(&format!("-{id}")) && self.touched.contains(&format!("+{id}")) }
    /// May the request get no response?
    fn silent(&self, q: &Q) -> bool {
        match q {
            Q::Ids | Q::Res(_) | Q::Fd(_) => false,
            Q::Bad => true,
            Q::Sig(id) => self.may_run(id),
            Q::Del(id) => self.may_dead(id),
            Q::Start(ids) => !self.idle.0 && ids.iter().all(|i| self.may_lack(i)),
        }
    }
    fn fits(&self, q: &Q, m: &J, idsok: bool) -> bool {
        let t = m["type"].as_str().unwrap_or("");
        let id = m["proc_id"].as_str().unwrap_or("");
        let err = t == "RequestError" && !m["err"].as_str().unwrap_or("").is_empty();
        let ask = m["msg"]["type"].as_str().unwrap_or("");
        match q {
            Q::Ids => t == "ProcidList" && idsok,
            Q::Res(x) => t == "ProcResult" && id == x && self.may_exist(x) || t == "ProcUnknown" && id == x && self.may_lack(x),
            Q::Fd(x) => t == "ProcFdData" && id == x && self.may_exist(x) || t == "ProcUnknown" && id == x && self.may_lack(x),
            Q::Sig(x) => t == "ProcUnknown" && id == x && self.may_lack(x) || err && ask == "ProcSignalRequest" && m["msg"]["proc_id"] == **x && self.may_dead(x),
            Q::Del(x) => t == "ProcUnknown" && id == x && self.may_lack(x) || err && ask == "ProcDeleteRequest" && m["msg"]["proc_id"] == **x && self.may_run(x),
            Q::Start(ids) => err && ask == "ProcStartRequest" && ids.iter().all(|i| !m["msg"]["specs"][i].is_null()) && (self.idle.1 || ids.iter().any(|i| self.may_exist(i))),
            Q::Bad => t == "RequestError",
        }
    }
}

fn truth(w: &mut World) -> R<Truth> {
    let d = w.get("/procs")?;
    Ok(d["procs"].as_object().ok_or("no list of processes")?.iter().map(|(k, v)| (k.clone(), v["state"] != "running")).collect())
}
fn open(w: &World, i: usize) -> bool { w.ws[i].state == WsState::Open && w.ws[i].sock.is_some() && !w.ws[i].eof && !w.ws[i].close_rcvd }
/// The connection that is registered now.
fn cur(w: &World, s: &S) -> Option<usize> { s.borrow().conns.iter().rev().find(|(i, c)| open(w, **i) && !c.dead && w.ws[**i].regd).map(|x| *x.0) }

/// After everything has settled: were all connections told what they ought to be?
pub fn check(w: &mut World, s: &S) -> R {
    let over = w.exited.is_some();
    let mut s = s.borrow_mut();
    let s = &mut *s;
    let lo = w.m.lo.clone();
    let after = if over || w.listen.is_none() {
        // The facts, as far as known.
        let mut t: Truth = w.m.procs.keys().map(|id| (id.clone(), w.kid(id).map(|k| w.kids[k].phase == Phase::Dead).unwrap_or(true))).collect();
        if over { for x in &s.touched { t.remove(x); } }
        t
    } else { truth(w)? };
    let cx0 = Ctx { before: s.before.clone(), after: &after, touched: s.touched.clone(), idle: s.idle };
    for c in s.conns.values_mut() { c.touched.extend(s.touched.iter().cloned()); c.fresh.extend(s.fresh.iter().cloned()); }
    for i in 0..w.ws.len() {
        let mut cx = cx0.clone();
        for v in w.ws_new(i) {
            if let Some(c) = s.conns.get(&i) { cx = Ctx { before: c.before.clone(), after: &after, touched: c.touched.clone(), idle: (c.idle, s.idle.1) }; }
            let m = v.json();
            let t = m["type"].as_str().unwrap_or("").to_string();
            let Some(c) = s.conns.get_mut(&i) else {
                if t != "Register" { return Err(format!("{t} sent before registration")); }
                register(w, &m, &s.want, &mut s.conn_id)?;
                let ids: Vec<String> = m["proc_ids"].as_array().ok_or("no proc_ids")?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
                for id in &ids { if !cx.may_exist(id) { return Err(format!("registration lists process {id}, which does not exist")); } }
                for id in cx.before.keys() { if after.contains_key(id) && !s.touched.contains(id) && !ids.contains(id) { return Err(format!("registration does not list process {id}")); } }
                if ids.iter().collect::<BTreeSet<_>>().len() != ids.len() { return Err(format!("registration lists {ids:?}")); }
                let sd = m["shutdown_state"].as_str().unwrap_or("").to_string();
                if sd != "active" && !s.idle.1 || sd == "active" && s.idle.0 { return Err(format!("registration with shutdown state {sd}")); }
                let told_idle = sd == "idling";
                // For each process, the set of what the server may know of it:
                // nothing 1, started 2, ended 4, deleted 8.
                let st: BTreeMap<String, u8> = ids.iter().map(|id| (id.clone(), if cx.may_run(id) || s.touched.contains(id) { 2 } else { 0 } | if cx.may_dead(id) { 4 } else { 0 })).collect();
                s.conns.insert(i, Conn { st: [(0, st)].into(), idle: if told_idle { true } else { s.idle.0 }, told: vec![sd], before: s.before.clone(), touched: s.touched.clone(), fresh: s.fresh.clone(), ..Default::default() });
                continue;
            };
            if !w.ws[i].regd { return Err(format!("{t} sent before the registration was confirmed")); }
            if t == "ShutDown" { c.told.push(m["shutdown_state"].as_str().unwrap_or("").into()); continue; }
            // Are its contents true?
            let id = m["proc_id"].as_str().unwrap_or("").to_string();
            if t == "ProcResult" { if !w.m.procs.contains_key(&id) { return Err(format!("result of process {id}, which does not exist")); } w.check_res(&id, &m["res"], &lo)?; }
            if t == "ProcFdData" {
                let d = v.get("data").and_then(|d| d.bytes()).ok_or("fd data without data")?;
                let key = (id.clone(), 1);
                let full = w.m.out.get(&key).cloned().unwrap_or_default();
                let least = lo.out.get(&key).map(|x| x.len()).unwrap_or(0);
                if d.len() < least || d.len() > full.len() || full[..d.len()] != *d || m["start"] != 0 || m["stop"] != d.len() { return Err(format!("fd data of process {id}: {} bytes, from {} to {}", d.len(), m["start"], m["stop"])); }
            }
            let mut idsok = true;
            if t == "ProcidList" {
                let ids: Vec<String> = m["proc_ids"].as_array().ok_or("no proc_ids")?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
                idsok = ids.iter().all(|i| cx.may_exist(i)) && cx.before.keys().all(|i| ids.contains(i) || !after.contains_key(i) || cx.touched.contains(i));
            }
            let mut next = BTreeSet::new();
            for (p, mut st) in std::mem::take(&mut c.st) {
                // As a response.
                let mut p2 = p;
                while p2 < c.q.len() {
                    if cx.fits(&c.q[p2], &m, idsok) { next.insert((p2 + 1, st.clone())); }
                    if !cx.silent(&c.q[p2]) { break; }
                    p2 += 1;
                }
                // As a notice.
                let had = st.get(&id).copied().unwrap_or(1);
                let again = c.fresh.contains(&id) && c.touched.contains(&format!("-{id}"));
                let mut to = 0;
                for b in [1, 2, 4, 8] {
                    if had & b == 0 { continue; }
                    let b = if b == 8 { 1 } else { b };
                    to |= match t.as_str() {
                        "ProcResult" if b == 1 && c.touched.contains(&id) => 2,
                        "ProcResult" if b == 2 && m["res"]["state"] != "running" => 4 | if again { b } else { 0 },
                        // A process that was deleted at once and its ID used again.
                        "ProcResult" if b > 1 && again => b,
                        // The notice of the start or the end may be overtaken only
                        // if the process was deleted before it could be sent.
                        "ProcDelete" if b == 4 || b == 2 && (cx.before.get(&id) != Some(&true) || c.fresh.contains(&id)) || b == 1 && c.fresh.contains(&id) => 8,
                        _ => 0,
                    };
                }
                if to != 0 { st.insert(id.clone(), to); next.insert((p, st)); }
            }
            if next.is_empty() { return Err(format!("unexpected message to the server: {}", m.to_string().chars().take(200).collect::<String>())); }
            c.st = next;
        }
        // Anything missing?
        if !open(w, i) { if let Some(c) = s.conns.get_mut(&i) { c.dead = true; c.q.clear(); } continue; }
        if over { continue; }
        let Some(c) = s.conns.get_mut(&i) else { continue };
        if !w.ws[i].regd { continue; }
        let cx = Ctx { before: c.before.clone(), after: &after, touched: c.touched.clone(), idle: (c.idle, s.idle.1) };
        let (mut why, n) = (String::new(), c.q.len());
        c.st.retain(|(p, st)| {
            if let Some(q) = c.q[*p..].iter().find(|q| !cx.silent(q)) { why = format!("no response to {q:?}"); return false; }
            for (id, dead) in &after { let want = if *dead { 4 } else { 2 }; let have = st.get(id).copied().unwrap_or(1); if have & want == 0 { why = format!("the server was not told that process {id} {}", if want == 4 { "has ended" } else { "was started" }); return false; } }
            for (id, x) in st { if *x & 9 == 0 && !after.contains_key(id) { why = format!("the server was not told that process {id} was deleted"); return false; } }
            true
        });
        if c.st.is_empty() { return Err(format!("{why} ({n} requests)")); }
        c.st = [(0, after.iter().map(|(id, d)| (id.clone(), if *d { 4 } else { 2 })).collect())].into();
        c.q.clear();
        let idles = c.told.iter().filter(|x| *x == "idling").count();
        c.before = after.clone(); c.touched.clear(); c.fresh.clear(); c.idle = s.idle.1;
        if idles != s.idle.1 as usize { return Err(format!("the server was told of the shutdown: {:?}", c.told)); }
    }
    // What has become of requests whose outcome depends on the order.
    for (i, id, start) in std::mem::take(&mut s.https) {
        if over { continue; }
        let r = w.take(i)?;
        let was = s.before.contains_key(&id);
        let ok = if start { r.status == 200 && (!was || cx0.may_lack(&id)) || r.status / 100 == 4 && (was || s.idle.1 || s.touched.contains(&id)) } else { r.status == 200 || r.status == 404 && cx0.may_lack(&id) || r.status / 100 == 4 && cx0.may_run(&id) };
        if !ok { return Err(format!("{}: status {}", if start { "start" } else { "deletion" }, r.status)); }
    }
    for id in std::mem::take(&mut s.touched) { if !after.contains_key(&id) { w.forget(&id); } }
    s.fresh.clear();
    s.before = after;
    s.idle.0 = s.idle.1;
    if !over { w.check_reaped()?; w.check_pending()?; if w.listen.is_some() { w.check_list()?; } w.m.lo = w.snap(); }
    Ok(())
}
fn register(w: &World, m: &J, want: &J, conn_id: &mut Option<String>) -> R {
    let c = &m["conn"];
    let id = c["conn_id"].as_str().unwrap_or("").to_string();
    if id.is_empty() { return Err("registration without a connection ID".into()); }
    if conn_id.get_or_insert(id.clone()) != &id { return Err(format!("registration under connection ID {id}, before it was {}", conn_id.as_ref().unwrap())); }
    let p = &m["proc"];
    let ids = w.app_ids();
    if p["pid"] != ids[0] || p["ppid"] != ids[1] || p["uid"] != ids[2] || p["euid"] != ids[3] || p["gid"] != ids[4] || p["egid"] != ids[5] { return Err(format!("registration as {p}, but it is {ids:?}")); }
    let mut h = [0u8; 256];
    unsafe { libc::gethostname(h.as_mut_ptr() as *mut _, 255); }
    let host = String::from_utf8_lossy(&h[..h.iter().position(|x| *x == 0).unwrap()]).to_string();
    let _ = host;
    if p["hostname"].as_str().unwrap_or("").is_empty() { return Err("registration without a host name".into()); }
    if let Some(o) = want.as_object() {
        for (k, v) in o {
            let have = m.pointer(k).cloned().unwrap_or(J::Null);
            if have != *v { return Err(format!("registration with {k} {have}, expected {v}")); }
        }
    }
    Ok(())
}

//---- Operations

fn send(w: &mut World, s: &S, q: Q) {
    let Some(i) = cur(w, s) else { return };
    let j = match &q {
        Q::Ids => json!({"type": "ProcidListRequest"}),
        Q::Res(id) => json!({"type": "ProcResultRequest", "proc_id": id}),
        Q::Fd(id) => json!({"type": "ProcFdDataRequest", "proc_id": id, "fd": "stdout", "start": 0, "stop": null}),
        Q::Sig(id) => json!({"type": "ProcSignalRequest", "proc_id": id, "signum": 10}),
        Q::Del(id) => { s.borrow_mut().touched.extend([id.clone(), format!("-{id}")]); json!({"type": "ProcDeleteRequest", "proc_id": id}) }
        Q::Start(ids) => {
            let sp = J::Object(ids.iter().map(|i| (i.clone(), cap1(i))).collect());
            for id in ids {
                let new = !w.m.procs.contains_key(id);
                if new { w.expect_procs(&json!({id: cap1(id)})); }
                let mut s = s.borrow_mut();
                s.touched.insert(id.clone());
                s.fresh.insert(id.clone()); s.touched.insert(format!("+{id}"));
            }
            json!({"type": "ProcStartRequest", "specs": sp})
        }
        Q::Bad => json!({"type": "Nonsense"}),
    };
    s.borrow_mut().conns.get_mut(&i).unwrap().q.push(q);
    w.req(i, j);
}
fn o_ws(s: &S, q: Q) -> Op {
    let (s1, s2) = (s.clone(), s.clone());
    op_if(&format!("server sends {q:?}"), move |w| cur(w, &s1).is_some(), move |w| { send(w, &s2, q.clone()); Ok(()) })
}
fn o_http_start(s: &S, id: &'static str) -> Op {
    let s = s.clone();
    op_if(&format!("POST {id}"), |w| w.listen.is_some(), move |w| {
        let new = !w.m.procs.contains_key(id);
        if new { w.expect_procs(&json!({id: cap1(id)})); }
        let i = w.http("POST", "/procs", Some(&json!({"specs": {id: cap1(id)}})));
        let mut s = s.borrow_mut();
        s.touched.insert(id.into());
        s.fresh.insert(id.into()); s.touched.insert(format!("+{id}"));
        s.https.push((i, id.into(), true));
        Ok(())
    })
}
fn o_http_del(s: &S, id: &'static str) -> Op {
    let s = s.clone();
    op_if(&format!("DELETE {id}"), |w| w.listen.is_some(), move |w| {
        let i = w.http("DELETE", &format!("/procs/{id}"), None);
        let mut s = s.borrow_mut();
        s.touched.extend([id.into(), format!("-{id}")]);
        s.https.push((i, id.into(), false));
        Ok(())
    })
}
fn o_end(id: &'static str) -> Op { o_exit(id, 4) }
/// Processes f and c cannot be executed.
fn failing(w: &mut World) { w.exec_errno = Some(Rc::new(|x| if x.argv[0] == b"f" || x.argv[0] == b"c" { libc::ENOENT } else { 0 })); }
/// Start and get everything into step.
fn begin(w: &mut World, s: &S, ids: &[&str]) -> R {
    w.settle()?;
    if !ids.is_empty() { w.start_procs(&J::Object(ids.iter().map(|i| (i.to_string(), cap1(i))).collect()))?; }
    { let mut s = s.borrow_mut(); for i in ids { s.touched.insert(i.to_string()); s.fresh.insert(i.to_string()); } }
    check(w, s)
}

//---- P21

pub fn events(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    // Everything at once.
    for (name, mask) in [("", vec![K_WAIT]), (", any branch first", vec![K_SELECT])] {
        let b = if name.is_empty() { if deep { 3 } else { 2 } } else { if deep { 2 } else { 1 } };
        v.push(Scn::new(&format!("requests, starts, ends, deletions{name}"), Conf::new(&BOTH).mask(&mask), b, move |w| {
            let s = sv();
            begin(w, &s, &["a"])?;
            w.actor(vec![o_write("a", 1, 9), o_end("a"), o_http_del(&s, "a")]);
            w.actor(vec![o_ws(&s, Q::Start(vec!["b".into()])), o_end("b"), o_ws(&s, Q::Del("b".into()))]);
            w.actor(vec![o_ws(&s, Q::Res("a".into())), o_ws(&s, Q::Ids), o_ws(&s, Q::Fd("a".into())), o_ws(&s, Q::Del("a".into()))]);
            w.inject = true;
            let s2 = s.clone();
            w.interleave(1, true, &move |w| check(w, &s2))
        }));
        v.push(Scn::new(&format!("the same process ID again{name}"), Conf::new(&BOTH).mask(&mask), b, move |w| {
            let s = sv();
            begin(w, &s, &[])?;
            w.actor(vec![o_ws(&s, Q::Start(vec!["a".into()])), o_end("a"), o_ws(&s, Q::Del("a".into())), o_ws(&s, Q::Start(vec!["a".into()])), o_end("a"), o_ws(&s, Q::Del("a".into()))]);
            w.actor(vec![o_http_start(&s, "b"), o_end("b"), o_http_del(&s, "b"), o_http_start(&s, "b")]);
            w.actor(vec![o_ws(&s, Q::Ids), o_ws(&s, Q::Res("a".into()))]);
            w.inject = true;
            let s2 = s.clone();
            w.interleave(1, true, &move |w| check(w, &s2))
        }));
    }
    v.push(Scn::new("starts that fail", Conf::new(&BOTH).mask(&[K_WAIT]), if deep { 3 } else { 2 }, move |w| {
        let s = sv();
        failing(w);
        begin(w, &s, &[])?;
        w.actor(vec![o_ws(&s, Q::Start(vec!["f".into()])), o_ws(&s, Q::Res("f".into())), o_ws(&s, Q::Del("f".into()))]);
        w.actor(vec![o_http_start(&s, "c"), o_http_del(&s, "c")]);
        w.actor(vec![o_ws(&s, Q::Start(vec!["b".into()])), o_ws(&s, Q::Ids)]);
        w.inject = true;
        let s2 = s.clone();
        w.interleave(1, true, &move |w| check(w, &s2))
    }));
    // All sequences of requests, one at a time or together.
    let menu: Vec<Q> = vec![Q::Ids, Q::Res("a".into()), Q::Res("d".into()), Q::Res("x".into()), Q::Fd("a".into()), Q::Fd("x".into()), Q::Sig("a".into()), Q::Sig("d".into()), Q::Sig("x".into()),
        Q::Del("a".into()), Q::Del("d".into()), Q::Del("x".into()), Q::Start(vec!["a".into()]), Q::Start(vec!["n".into()]), Q::Start(vec!["m".into(), "d".into()]), Q::Res("f".into()), Q::Fd("f".into()), Q::Sig("f".into()), Q::Del("f".into()), Q::Start(vec!["n".into(), "c".into()]), Q::Start(vec!["o".into(), "p".into()])];
    for n in 2..=(if deep { 3 } else { 2 }) {
        let menu = menu.clone();
        v.push(Scn::new(&format!("{n} requests"), Conf::new(&BOTH), 0, move |w| {
            let s = sv();
            failing(w);
            begin(w, &s, &["a", "d", "f"])?;
            w.emit("a", 1, 40)?;
            let k = w.kid("d").unwrap();
            w.kid_exit(k, 1);
            w.settle()?;
            check(w, &s)?;
            let sep = w.choose("separately", 2, 0) == 1;
            for _ in 0..n {
                let q = menu[w.choose("request", menu.len(), 0)].clone();
                // Sending what starts the same twice would leave it open who succeeds.
                send(w, &s, q);
                if sep { w.settle()?; check(w, &s)?; }
            }
            w.settle()?;
            check(w, &s)
        }));
    }
    // Requests in few large or many small pieces.
    v.push(Scn::new("requests in pieces", Conf::new(&BOTH), 0, move |w| {
        let s = sv();
        begin(w, &s, &["a"])?;
        let step = [1, 2, 3, 7, 20][w.choose("pieces of", 5, 0)];
        let frag = w.choose("fragmented", 2, 0) == 1;
        for q in [Q::Ids, Q::Res("a".into()), Q::Res("x".into())] {
            let j = match &q { Q::Ids => json!({"type": "ProcidListRequest"}), Q::Res(id) => json!({"type": "ProcResultRequest", "proc_id": id}), _ => J::Null };
            let b = crate::msgpack::encode(&V::from_json(&j));
            let mut bytes = vec![];
            if frag { let n = b.chunks(5).count(); for (i, c) in b.chunks(5).enumerate() { bytes.push((if i == 0 { 2 } else { 0 }) | if i + 1 == n { 0x80 } else { 0 }); bytes.push(c.len() as u8); bytes.extend(c); } }
            else { bytes.push(0x82); bytes.push(b.len() as u8); bytes.extend(b); }
            s.borrow_mut().conns.get_mut(&0).unwrap().q.push(q);
            for c in bytes.chunks(step) { w.ws_raw(0, c); w.settle()?; }
            check(w, &s)?;
        }
        Ok(())
    }));
    // What happens while the connection is set up.
    for (b, any) in [(0, false), (1, false), (0, true), (1, true)] {
        let conf = Conf::new(&BOTH).mask(if any { &[K_SELECT] } else { &[] });
        v.push(Scn::new(&format!("events while connecting {b}{}", if any { ", any branch first" } else { "" }), conf, if deep { 3 } else { 2 } - any as u32, move |w| {
            let s = sv();
            w.ws_auto = false; w.ws_autoreg = false;
            begin(w, &s, &["a"])?;
            w.actor(vec![op("handshake", |w| { w.ws_accept(0); Ok(()) }), op_if("registered", |w| !w.ws[0].got.is_empty(), |w| { w.ws_send(0, &V::from_json(&json!({"type": "Registered"}))); Ok(()) }), o_ws(&s, Q::Ids)]);
            w.actor(vec![o_end("a"), o_http_del(&s, "a")]);
            if b == 0 { w.actor(vec![o_http_start(&s, "b"), o_end("b"), o_http_del(&s, "b")]); }
            else { let s3 = s.clone(); w.actor(vec![o_http_start(&s, "b"), op("SIGUSR1", move |w| { s3.borrow_mut().idle.1 = true; w.raise(10); Ok(()) })]); }
            let s2 = s.clone();
            w.interleave(1, true, &move |w| check(w, &s2))
        }));
    }
    // What the registration says.
    let regs: Vec<(&str, Vec<&'static str>, Vec<(&'static str, &'static str)>, J)> = vec![
        ("default", vec![], vec![], json!({"/conn/group_id": "default", "/conn/restricted_exe": null, "/access_token": ""})),
        ("conn-id", vec!["--conn-id", "my conn"], vec![], json!({"/conn/conn_id": "my conn", "/conn/group_id": "default"})),
        ("group-id", vec!["--group-id", "gr\u{fc}n"], vec![], json!({"/conn/group_id": "gr\u{fc}n"})),
        ("odd IDs", vec!["--conn-id", " \u{fc}/%41\t", "--group-id", " G. "], vec![], json!({"/conn/conn_id": " \u{fc}/%41\t", "/conn/group_id": " G. "})),
        ("empty group ID", vec!["--group-id", ""], vec![], json!({"/conn/group_id": ""})),
        ("restrict-exe", vec!["--restrict-exe", "/px/a"], vec![], json!({"/conn/restricted_exe": "/px/a"})),
        ("token", vec![], vec![("PROCSTAR_AGENT_TOKEN", "s3cr\u{e9}t")], json!({"/access_token": "s3cr\u{e9}t"})),
        ("all", vec!["--conn-id", "c", "--group-id", "g", "--restrict-exe", "/px/a"], vec![("PROCSTAR_AGENT_TOKEN", "tok"), ("PROCSTAR_AGENT_HOST", "elsewhere")], json!({"/conn/conn_id": "c", "/conn/group_id": "g", "/conn/restricted_exe": "/px/a", "/access_token": "tok"})),
    ];
    let regs: Vec<(String, Vec<&'static str>, Vec<(&'static str, &'static str)>, J, [Option<&'static str>; 3])> = regs.into_iter().map(|(n, a, e, j)| (n.to_string(), a, e, j, [None; 3])).chain(
        // Names of the host (up to the system's limit), and of the user and group, if they have any.
        [("h", "u", "g"), ("host.example.com", "", ""), ("0123456789012345678901234567890123456789012345678901234567890ab", "root", ""), ("0123456789012345678901234567890123456789012345678901234567890abc", "", "wheel"), ("localhost", "\u{fc}ser name", "gr\u{fc}n")]
            .into_iter().map(|(h, u, g)| { let opt = |s: &str| if s.is_empty() { J::Null } else { json!(s) }; (format!("names of {}", h.len()), vec![], vec![], json!({"/proc/hostname": h, "/proc/username": opt(u), "/proc/groupname": opt(g)}), [Some(h), Some(u), Some(g)]) })).collect();
    for (name, args, env, want, names) in regs {
        let mut a = BOTH.to_vec();
        a.extend(&args);
        a.push("-");
        let mut c = Conf::new(&a);
        for (k, v) in env { c = c.env(k, v); }
        for (k, v) in [".px_host", ".px_user", ".px_group"].iter().zip(names) { if let Some(v) = v { c = c.file(k, v.as_bytes()); } }
        v.push(Scn::new(&format!("registration: {name}"), c, 0, move |w| {
            let s = sv();
            s.borrow_mut().want = want.clone();
            let n = w.choose("processes", 4, 0);
            let ids = ["a", "b", "c"];
            let exe = |id: &str| json!({"exe": "/px/a", "argv": [id], "fds": [["stdout", capture("memory", None, true)]]});
            let sp = J::Object(ids[..n].iter().map(|i| (i.to_string(), exe(i))).collect());
            w.stdin(&serde_json::to_vec(&json!({"specs": sp})).unwrap());
            w.expect_procs(&sp);
            failing(w);
            let late = w.choose("server comes", 3, 0);
            if late > 0 { w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED); }
            { let mut s = s.borrow_mut(); for i in &ids[..n] { s.touched.insert(i.to_string()); s.fresh.insert(i.to_string()); } }
            w.settle()?;
            check(w, &s)?;
            for i in 0..late {
                if i < n && ids[i] != "c" { w.emit(ids[i], 1, 10)?; let k = w.kid(ids[i]).unwrap(); w.kid_exit(k, 0); w.settle()?; check(w, &s)?; }
                if i + 1 == late { w.policy = ConnPolicy::Accept; }
                let k = w.ws.len();
                for _ in 0..20 { if w.ws.len() > k || w.timeout < 0 { break; } w.expire(); w.settle()?; if i + 1 < late && w.connects.len() > i + 2 { break; } }
                check(w, &s)?;
            }
            if cur(w, &s).is_none() { return Err("not registered".into()); }
            // It can be lost.
            w.ws_drop(w.ws.len() - 1);
            w.settle()?;
            check(w, &s)?;
            if cur(w, &s).is_none() { return Err("not registered again".into()); }
            for i in &ids[..n] { send(w, &s, Q::Res(i.to_string())); w.settle()?; check(w, &s)?; }
            Ok(())
        }));
    }
    // The last deletion completes a shutdown.
    v.push(Scn::new("the last word", Conf::new(&BOTH).mask(&[K_SELECT]), if deep { 2 } else { 1 }, move |w| {
        let s = sv();
        let n = 1 + w.choose("processes", 2, 0);
        begin(w, &s, &["a", "b"][..n])?;
        s.borrow_mut().idle.1 = true;
        w.raise(10);
        w.settle()?;
        check(w, &s)?;
        for id in ["a", "b"].iter().take(n) {
            let k = w.kid(id).unwrap();
            w.kid_exit(k, 0);
            w.settle()?;
            check(w, &s)?;
        }
        let via = w.choose("deleted via", 2, 0);
        for id in ["a", "b"].iter().take(n) {
            w.ws_new(0);
            if via == 0 { w.http("DELETE", &format!("/procs/{id}"), None); } else { w.req(0, json!({"type": "ProcDeleteRequest", "proc_id": id})); }
            w.settle()?;
            let got: Vec<(String, String)> = w.ws_new(0).iter().map(|v| (v.s("type").to_string(), format!("{}{}", v.s("proc_id"), v.s("shutdown_state")))).collect();
            let mut want = vec![("ProcDelete".to_string(), id.to_string())];
            if *id == ["a", "b"][n - 1] { want.push(("ShutDown".into(), "done".into())); }
            if got != want { return Err(format!("the server was told {got:?}, expected {want:?}")); }
        }
        if w.exited != Some(0) { return Err(format!("procstar has not exited: {:?}", w.exited)); }
        Ok(())
    }));
    v
}

//---- P22

const FAULTS: [&str; 16] = ["refused", "timed out", "lost at once", "lost in the handshake", "rejected", "garbage", "redirected", "lost registering", "close registering", "wrong message", "ill-formed message", "text message",
    "lost at once after", "close", "partial frame", "request half sent"];
/// Go through a connection attempt with the fault, however far it gets.  The
/// attempt has to be due.
fn fault(w: &mut World, s: &S, f: usize, ev: &mut dyn FnMut(&mut World, &S) -> R) -> R {
    w.policy = match f { 0 => ConnPolicy::Refuse(libc::ECONNREFUSED), 1 => ConnPolicy::Refuse(libc::ETIMEDOUT), _ => ConnPolicy::Accept };
    let n = w.connects.len();
    let mut k = 0;
    // It may be under way already.
    let pending = w.ws.last().map(|x| x.state == WsState::Upgrading && x.sock.is_some()).unwrap_or(false);
    if pending && f < 2 { w.ws_drop(w.ws.len() - 1); w.settle()?; }
    while w.connects.len() == n && !(pending && f >= 2) { k += 1; if k > 30 || w.timeout < 0 { return Err("procstar does not connect again".into()); } w.expire(); w.settle()?; check(w, s)?; }
    if w.connects.len() > n + 1 { return Err("procstar connected again without waiting".into()); }
    w.policy = if f == 12 || f == 14 { ConnPolicy::Accept } else { ConnPolicy::Refuse(libc::ECONNREFUSED) };
    if f < 2 { ev(w, s)?; return check(w, s); }
    let i = w.ws.len() - 1;
    if w.ws[i].upgrade.is_none() { return Err("no upgrade request".into()); }
    if f == 2 { w.ws_drop(i); w.settle()?; ev(w, s)?; return check(w, s); }
    ev(w, s)?;
    match f {
        3 => { w.ws_raw(i, b"HTTP/1.1 101 Switching Protocols\r\nUpgra"); w.settle()?; w.ws_drop(i); }
        4 => w.ws_reject(i),
        5 => { w.ws_raw(i, b"\x00\xff\x80 garbage\r\n\r\nmore\r\n\r\n"); w.settle()?; w.ws_drop(i); }
        6 => { w.ws_raw(i, b"HTTP/1.1 302 Found\r\nLocation: wss://other:1/\r\nContent-Length: 0\r\n\r\n"); w.settle()?; w.ws_drop(i); }
        _ => {
            w.ws_accept(i);
            w.settle()?;
            check(w, s)?;
            if !s.borrow().conns.contains_key(&i) { return Err("no registration".into()); }
            match f {
                7 => w.ws_drop(i),
                8 => { w.ws_close(i); w.settle()?; w.ws_drop(i); }
                9 => { w.req(i, json!({"type": "ProcidListRequest"})); w.settle()?; w.ws_drop(i); }
                10 => { w.ws_frame(i, 2, b"\xc1\xff"); w.settle()?; w.ws_drop(i); }
                11 => { w.ws_frame(i, 1, b"Registered"); w.settle()?; w.ws_drop(i); }
                _ => {
                    w.ws_send(i, &V::from_json(&json!({"type": "Registered"})));
                    w.settle()?;
                    ev(w, s)?;
                    check(w, s)?;
                    match f {
                        12 => w.ws_drop(i),
                        13 => { w.ws_close(i); w.settle()?; w.ws_drop(i); }
                        14 => { w.ws_raw(i, &[0x82, 0x7e, 0x00]); w.settle()?; w.ws_drop(i); }
                        _ => { w.ws_raw(i, &[0x02, 0x02, 0x81, 0xa4]); w.settle()?; w.ws_drop(i); }
                    }
                }
            }
        }
    }
    Ok(())
}
/// Procstar is asked to shut down once its processes are gone.
fn idle(w: &mut World, s: &S) -> R {
    s.borrow_mut().idle.1 = true;
    w.raise(10);
    w.settle()?;
    check(w, s)
}
/// Something happens to the processes.
fn event(w: &mut World, s: &S, e: usize) -> R {
    let names = ["b", "c", "d", "e"];
    match e {
        0 => {}
        1 => { // start
            let id = names.iter().find(|n| !w.m.procs.contains_key(**n)).copied();
            if let Some(id) = id { (o_http_start(s, id).f)(w)?; }
        }
        2 => { // the first one ends
            let ids: Vec<String> = w.m.procs.keys().cloned().collect();
            if let Some(k) = ids.iter().filter_map(|i| w.kid(i)).find(|k| w.alive(*k)) { w.kid_exit(k, 3); }
        }
        3 => { // the first one is deleted
            let ids: Vec<String> = w.m.procs.keys().cloned().collect();
            if let Some(id) = ids.iter().find(|i| w.kid(i).map(|k| w.kids[k].phase == Phase::Dead).unwrap_or(false)) {
                let i = w.http("DELETE", &format!("/procs/{id}"), None);
                let mut s = s.borrow_mut();
                s.touched.extend([id.clone(), format!("-{id}")]);
                s.https.push((i, id.clone(), false));
            }
        }
        _ => { // output
            let ids: Vec<String> = w.m.procs.keys().cloned().collect();
            if let Some(id) = ids.iter().find(|i| w.kid(i).map(|k| w.alive(k)).unwrap_or(false)) { w.emit(id, 1, 30)?; }
        }
    }
    w.settle()?;
    check(w, s)
}
fn registered(w: &mut World, s: &S) -> R {
    w.policy = ConnPolicy::Accept;
    let mut k = 0;
    while cur(w, s).is_none() {
        let (mut did, n) = (false, w.ws.len());
        if let Some(i) = (0..n).rev().find(|i| w.ws[*i].state == WsState::Upgrading && w.ws[*i].sock.is_some()) { w.ws_accept(i); did = true; }
        else if let Some(i) = (0..n).rev().find(|i| open(w, *i) && !w.ws[*i].regd && s.borrow().conns.contains_key(i)) { w.ws_send(i, &V::from_json(&json!({"type": "Registered"}))); did = true; }
        if !did {
            k += 1;
            if k > 40 || w.timeout < 0 { return Err("procstar does not connect again".into()); }
            w.expire();
        }
        w.settle()?;
        check(w, s)?;
    }
    // It serves as before.
    for q in [Q::Ids, Q::Res("a".into()), Q::Res("b".into()), Q::Fd("b".into()), Q::Res("f".into()), Q::Fd("f".into())] { send(w, s, q); w.settle()?; check(w, s)?; }
    Ok(())
}
pub fn reconnect(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for n in 1..=(if deep { 3 } else { 2 }) {
        let evs = if deep && n < 3 { 5 } else { 3 };
        v.push(Scn::new(&format!("{n} faults"), Conf::new(&BOTH), 0, move |w| {
            let s = sv();
            w.ws_auto = false; w.ws_autoreg = false;
            w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED);
            failing(w);
            begin(w, &s, &["a", "f"])?;
            let plan: Vec<(usize, usize)> = (0..n).map(|_| (w.choose("fault", FAULTS.len(), 0), w.choose("event", evs, 0))).collect();
            for (f, e) in plan {
                let e = if evs == 3 { [1, 2, 3][e] } else { e };
                fault(w, &s, f, &mut |w, s| event(w, s, e))?;
                w.settle()?;
                check(w, &s)?;
            }
            registered(w, &s)?;
            // And again.
            w.ws_drop(w.ws.len() - 1);
            w.settle()?;
            registered(w, &s)
        }));
    }
    // Procstar has been asked to shut down once its processes are gone; one remains.
    for when in ["before", "during", "after"] {
        v.push(Scn::new(&format!("lost while shutting down (asked {when})"), Conf::new(&BOTH), 0, move |w| {
            let s = sv();
            failing(w);
            let n = w.choose("faults", 2, 0) + 1;
            if when == "before" { 
                begin(w, &s, &["a", "f"])?;
                idle(w, &s)?;
                w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED);
                w.ws_drop(0);
                w.settle()?;
            }
            else {
                w.ws_auto = false; w.ws_autoreg = false;
                w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED);
                begin(w, &s, &["a", "f"])?;
            }
            w.ws_auto = false; w.ws_autoreg = false;
            for k in 0..n {
                let (f, e) = (w.choose("fault", FAULTS.len(), 0), if deep { w.choose("event", 3, 0) } else { 2 * k });
                fault(w, &s, f, &mut |w, s| {
                    if when == "during" && k == 0 { idle(w, s)?; }
                    event(w, s, [1, 4, 0][e])
                })?;
                w.settle()?;
                check(w, &s)?;
            }
            if when == "after" { idle(w, &s)?; }
            registered(w, &s)?;
            w.ws_drop(w.ws.len() - 1);
            w.settle()?;
            registered(w, &s)?;
            // It is asked once more for everything, and ends when the last process is gone.
            let a = w.kid("a").unwrap();
            w.kid_exit(a, 0);
            w.settle()?;
            check(w, &s)?;
            if w.exited.is_some() { return Err("procstar exited while it still had processes".into()); }
            Ok(())
        }));
    }
    // A connection is lost in the middle of everything.
    for f in [12, 13, 14, 15] {
        v.push(Scn::new(&format!("lost amid requests and events ({})", FAULTS[f]), Conf::new(&BOTH), if deep { 3 } else { 2 }, move |w| {
            let s = sv();
            failing(w);
            begin(w, &s, &["a", "f"])?;
            let drop = move |w: &mut World| -> R {
                let Some(i) = (0..w.ws.len()).rev().find(|i| w.ws[*i].sock.is_some()) else { return Ok(()) };
                match f { 12 => w.ws_drop(i), 13 => w.ws_close(i), 14 => { w.ws_raw(i, &[0x82, 0x7e, 0x00]); w.ws_drop(i) } _ => { w.ws_raw(i, &[0x02, 0x02, 0x81, 0xa4]); w.ws_drop(i) } }
                Ok(())
            };
            w.actor(vec![op("connection lost", drop), op("connection lost", drop)]);
            w.actor(vec![o_ws(&s, Q::Start(vec!["b".into()])), op_if("b ends", |w| w.kid("b").map(|k| w.alive(k)).unwrap_or(false), |w| { let k = w.kid("b").unwrap(); w.kid_exit(k, 1); Ok(()) }), o_ws(&s, Q::Del("b".into()))]);
            w.actor(vec![o_end("a"), o_http_del(&s, "a")]);
            w.actor(vec![o_ws(&s, Q::Res("a".into())), o_ws(&s, Q::Ids)]);
            let s2 = s.clone();
            w.interleave(1, true, &move |w| check_lossy(w, &s2))?;
            if f == 13 { for i in 0..w.ws.len() { if w.ws[i].close_rcvd { w.ws_drop(i); } } }
            w.settle()?;
            registered(w, &s)
        }));
    }
    // Procstar's own writing of a message is what fails.
    v.push(Scn::new("lost while not reading", Conf::new(&BOTH), 0, move |w| {
        let s = sv();
        begin(w, &s, &["a", "b"])?;
        let n = [10, 300_000][w.choose("output", 2, 0)];
        w.emit("a", 1, n)?;
        w.settle()?;
        check(w, &s)?;
        w.ws[0].deaf = true;
        for i in 0..w.choose("requests", 4, 0) { send(w, &s, if i % 2 == 0 { Q::Fd("a".into()) } else { Q::Res("a".into()) }); w.settle()?; }
        let e = w.choose("event", 3, 0);
        if e > 0 { let k = w.kid("b").unwrap(); w.kid_exit(k, 0); w.settle()?; }
        if e > 1 { let i = w.http("DELETE", "/procs/b", None); w.settle()?; s.borrow_mut().touched.insert("b".into()); s.borrow_mut().https.push((i, "b".into(), false)); }
        w.get("/procs").map_err(|e| format!("while the server does not read: {e}"))?;
        match w.choose("then", 3, 0) { 0 => w.ws_drop(0), 1 => { w.ws_close(0); w.settle()?; w.ws_drop(0); } _ => w.ws[0].deaf = false }
        w.settle()?;
        check(w, &s)?;
        registered(w, &s)
    }));
    v
}
/// A connection may be lost without the server having sent requests in vain.
fn check_lossy(w: &mut World, s: &S) -> R { check(w, s) }

//---- P23

pub fn backoff(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let cfgs: Vec<(&str, Vec<&'static str>, f64, f64, f64, u64)> = vec![
        ("defaults", vec![], 1.0, 2.0, 60.0, u64::MAX),
        ("all", vec!["--connect-interval-start", "0.5", "--connect-interval-mult", "3", "--connect-interval-max", "10", "--connect-count-max", "6"], 0.5, 3.0, 10.0, 6),
        ("constant", vec!["--connect-interval-start", "2", "--connect-interval-mult", "1", "--connect-interval-max", "5", "--connect-count-max", "4"], 2.0, 1.0, 5.0, 4),
        ("max equals start", vec!["--connect-interval-start", "3", "--connect-interval-max", "3", "--connect-count-max", "5"], 3.0, 2.0, 3.0, 5),
        ("fraction", vec!["--connect-interval-start", "1", "--connect-interval-mult", "1.5", "--connect-interval-max", "4"], 1.0, 1.5, 4.0, u64::MAX),
        ("one", vec!["--connect-count-max", "1"], 1.0, 2.0, 60.0, 1),
        ("two", vec!["--connect-count-max", "2"], 1.0, 2.0, 60.0, 2),
        ("count only", vec!["--connect-count-max", "9"], 1.0, 2.0, 60.0, 9),
        ("start only", vec!["--connect-interval-start", "0.25"], 0.25, 2.0, 60.0, u64::MAX),
        ("mult only", vec!["--connect-interval-mult", "10"], 1.0, 10.0, 60.0, u64::MAX),
        ("max only", vec!["--connect-interval-max", "2.5"], 1.0, 2.0, 2.5, u64::MAX),
    ];
    for (name, args, start, mult, max, count) in cfgs {
        let mut a = AGENT.to_vec();
        a.extend(&args);
        let len = if deep { 8 } else { 6 };
        v.push(Scn::new(&format!("{name}: successes and failures"), Conf::new(&a), 0, move |w| {
            w.ws_auto = false; w.ws_autoreg = false;
            // Outcomes: 0 fails at the first step, 1 fails later, 2 succeeds and then is lost.
            let n = if count == u64::MAX { len } else { len.max(count as usize + 1) };
            let (mut fails, mut iv, mut due) = (0, start, w.mono);
            w.policy = ConnPolicy::Ask;
            w.settle()?;
            for a in 0..n {
                if w.connects.len() != a + 1 { return Err(format!("{} attempts, expected {}", w.connects.len(), a + 1)); }
                let (_, t, acc) = w.connects[a].clone();
                if (t - due).abs() > 2 * MS { return Err(format!("attempt {a} came {} ms after the last, expected {} ms", (t - due) / MS, 0)); }
                let mut lost = false;
                if acc {
                    let i = w.ws.len() - 1;
                    let c = if a < 5 { w.choose("succeeds", 2, 0) } else { 0 };
                    if c == 1 { w.ws_accept(i); w.settle()?; w.ws_send(i, &V::from_json(&json!({"type": "Registered"}))); w.settle()?; }
                    let d = [0, 1500 * MS][w.choose("after", 2, 1)];
                    if d > 0 { w.sleep(d / MS)?; }
                    w.ws_drop(i);
                    w.settle()?;
                    if c == 1 { lost = true; fails = 0; iv = start; due = w.mono; }
                }
                if lost { continue; }
                fails += 1;
                if fails == count {
                    if w.exited != Some(1 << 8) { return Err(format!("after {fails} failed attempts procstar has not exited with status 1: {:?}", w.exited)); }
                    return Ok(());
                }
                if w.exited.is_some() { return Err(format!("procstar exited after {fails} failed attempts of {count}")); }
                due = w.mono + (iv * 1e9) as i64;
                // Not early, and then at once.
                let ms = (iv * 1000.0) as i64;
                w.sleep(ms - 2)?;
                if w.connects.len() != a + 1 { return Err(format!("attempt {} came before {} ms had passed", a + 1, ms)); }
                for _ in 0..5 { if w.connects.len() > a + 1 || w.exited.is_some() || w.timeout < 0 || w.mono + w.timeout as i64 * MS > due + 3 * MS { break; } w.expire(); w.settle()?; }
                if w.connects.len() < a + 2 { return Err(format!("no attempt {} after {} ms (fails {fails})", a + 1, ms)); }
                due = w.connects[a + 1].1.min(due + 3 * MS).max(due);
                iv = (iv * mult).min(max);
            }
            Ok(())
        }));
        // Long series of failures.
        v.push(Scn::new(&format!("{name}: failures only"), Conf::new(&a), 0, move |w| {
            w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED);
            w.settle()?;
            let (mut iv, mut a) = (start, 1u64);
            while a < count.min(40) {
                let t = w.connects.last().unwrap().1;
                let end = w.mono + (iv * 1e9) as i64 + 3 * MS;
                while w.exited.is_none() && w.timeout >= 0 && w.connects.len() as u64 == a && w.mono + w.timeout as i64 * MS <= end { w.expire(); w.settle()?; }
                if w.connects.len() as u64 != a + 1 { return Err(format!("{} attempts after {} ms, expected {}", w.connects.len(), (end - t) / MS, a + 1)); }
                let d = w.connects.last().unwrap().1 - t;
                if (d as f64 / 1e9 - iv).abs() > 0.003 { return Err(format!("attempt {} came after {} ms, expected {} ms", a, d / MS, iv * 1000.0)); }
                iv = (iv * mult).min(max);
                a += 1;
            }
            if count < 40 { if w.exited != Some(1 << 8) { return Err(format!("after {a} failed attempts procstar has not exited with status 1: {:?}", w.exited)); } }
            else if w.exited.is_some() { return Err("procstar exited".into()); }
            Ok(())
        }));
    }
    v
}

//---- P24

/// Bring the connection into the given phase.
const PHASES: [&str; 8] = ["refused", "handshake", "registering", "connected", "connected, busy", "connected, not reading", "lost", "closing"];
pub fn shutdown(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    // The connection is lost, or breaks, at the very moment at which the shutdown completes.
    for how in ["SIGUSR1", "--wait", "SIGQUIT", "SIGTERM"] {
        let mut args = BOTH.to_vec();
        if how.starts_with("--") { args.push(how); args.push("-"); }
        v.push(Scn::new(&format!("connection broken at the completion, {how}"), Conf::new(&args), if deep { 3 } else { 2 }, move |w| {
            let sp = json!({"a": cap1("a")});
            if how == "--wait" { w.stdin(&serde_json::to_vec(&json!({"specs": sp})).unwrap()); w.expect_procs(&sp); w.settle()?; }
            else { w.settle()?; w.start_procs(&sp)?; }
            let k = w.kid("a").unwrap();
            w.kid_exit(k, 0);
            w.settle()?;
            match how { "SIGUSR1" => w.raise(10), "SIGTERM" => w.raise(15), "SIGQUIT" => w.raise(3), _ => {} }
            w.settle()?;
            if w.exited.is_some() { return Err("procstar exited before its process was deleted".into()); }
            let refuse = w.choose("server gone", 2, 0) == 1;
            if refuse { w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED); }
            w.set_mask(&[K_SELECT]);
            let via = w.choose("deleted via", 2, 0);
            let bad = w.choose("broken by", 6, 0);
            let first = w.choose("first", 2, 0);
            for x in 0..2 {
                if x == first { if via == 0 { if w.ws[0].sock.is_some() { w.req(0, json!({"type": "ProcDeleteRequest", "proc_id": "a"})); } } else { w.http("DELETE", "/procs/a", None); } }
                else { match bad { 0 => w.ws_frame(0, 1, b"text"), 1 => w.ws_close(0), 2 => w.ws_drop(0), 3 => w.ws_raw(0, &[0x83, 0]), 4 => { w.ws_close(0); w.ws_drop(0); } _ => { w.ws_raw(0, &[0x82, 5, 1]); w.ws_drop(0); } } }
            }
            w.settle()?;
            if via == 0 && first == 1 && w.exited.is_none() { w.http("DELETE", "/procs/a", None); w.settle()?; }
            if w.exited.is_none() { w.sleep(5010)?; }
            if w.exited != Some(0) { return Err(format!("the shutdown is complete but procstar has not exited ({:?})", w.exited)); }
            Ok(())
        }));
    }
    for how in ["SIGTERM", "SIGINT", "SIGQUIT", "SIGUSR1", "--exit", "--wait"] {
        for mode in ["", ", any branch first"] {
        let mut args = BOTH.to_vec();
        if how.starts_with("--") { args.push(how); args.push("-"); }
        let conf = Conf::new(&args);
        let conf = if mode.is_empty() { conf } else { conf.mask(&[K_SELECT]) };
        let b = if mode.is_empty() { 1 } else if deep { 2 } else { 1 };
        v.push(Scn::new(&format!("{how}{mode}"), conf, b, move |w| {
            let s = sv();
            let ph = w.choose("phase", PHASES.len(), 0);
            let n = if mode.is_empty() { w.choose("processes", 3, 0) } else { 1 };
            if how == "--wait" && n == 0 { return Ok(()); }
            if how == "--exit" && n == 0 { return Ok(()); }
            let ids = ["a", "b"];
            if ph < 3 { w.ws_auto = ph == 2; w.ws_autoreg = false; }
            if ph == 0 { w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED); }
            let sp = J::Object(ids[..n].iter().map(|i| (i.to_string(), cap1(i))).collect());
            if how.starts_with("--") {
                w.stdin(&serde_json::to_vec(&json!({"specs": sp})).unwrap());
                w.expect_procs(&sp);
                w.settle()?;
                { let mut s = s.borrow_mut(); for i in &ids[..n] { s.touched.insert(i.to_string()); s.fresh.insert(i.to_string()); } }
                check(w, &s)?;
            } else { begin(w, &s, &ids[..n])?; }
            match ph {
                4 => { w.emit("a", 1, 1000).ok(); for _ in 0..3 { send(w, &s, Q::Ids); } }
                5 => {
                    w.ws[0].deaf = true;
                    if n > 0 {
                        w.emit("a", 1, 300_000)?; w.settle()?;
                        for _ in 0..3 { send(w, &s, Q::Fd("a".into())); w.settle()?; }
                    }
                }
                6 => { w.policy = ConnPolicy::Refuse(libc::ECONNREFUSED); w.ws_drop(0); w.settle()?; check(w, &s)?; }
                7 => { w.ws_auto = false; w.ws_close(0); }
                _ => {}
            }
            let t0 = w.mono;
            // The shutdown runs its course, except for what the server does.
            if how == "SIGUSR1" { s.borrow_mut().idle.1 = true; }
            match how { "SIGTERM" => w.raise(15), "SIGINT" => w.raise(2), "SIGQUIT" => w.raise(3), "SIGUSR1" => w.raise(10), _ => {} }
            let early = w.choose("event comes", 2, 1) == 1;
            if !early { w.settle()?; }
            if how.starts_with("SIGU") || how.starts_with("--") {
                for id in &ids[..n] { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); w.settle()?; }
                if how != "--exit" { for id in &ids[..n] { if w.exited.is_none() && w.listen.is_some() { w.http("DELETE", &format!("/procs/{id}"), None); w.settle()?; } } }
            }
            w.settle()?;
            // Signals leave five seconds for the processes to be deleted.
            let grace = if how.starts_with("SIG") && how != "SIGUSR1" && n > 0 { 5000 } else { 0 };
            if grace > 0 {
                if w.exited.is_some() { return Err("procstar exited before its processes were deleted".into()); }
                let del = w.choose("deleted", 2, 1) == 1;
                if del { for id in &ids[..n] { if w.exited.is_none() && w.listen.is_some() { w.http("DELETE", &format!("/procs/{id}"), None); w.settle()?; } } }
                else { w.sleep(grace + 2)?; }
            }
            let t1 = w.mono;
            let reads = ph != 5 || n == 0;
            if reads && w.exited != Some(0) { return Err(format!("the shutdown is complete but procstar has not exited ({}; {:?})", PHASES[ph], w.exited)); }
            if w.exited.is_none() {
                w.sleep(5010)?;
                if w.exited != Some(0) { return Err(format!("the shutdown is complete but procstar has not exited for {} ms ({}; {:?})", (w.mono - t1) / MS, PHASES[ph], w.exited)); }
            }
            let _ = t0;
            // What the server was told in the end.
            if (3..=5).contains(&ph) && reads {
                if ph == 5 { w.ws[0].deaf = false; w.settle()?; }
                let m: Vec<J> = w.ws[0].got.iter().map(|v| v.json()).collect();
                let l = m.last().unwrap();
                if l["type"] != "ShutDown" || l["shutdown_state"] != "done" { return Err(format!("the last message to the server is {}", l["type"])); }
                if m.iter().filter(|m| m["type"] == "ShutDown" && m["shutdown_state"] == "done").count() != 1 { return Err("the server was told of the shutdown twice".into()); }
                if how == "SIGUSR1" && m.iter().filter(|m| m["type"] == "ShutDown" && m["shutdown_state"] == "idling").count() != 1 { return Err("the server was not told once that procstar is idling".into()); }
                for id in &ids[..n] {
                    let ends = m.iter().filter(|m| m["type"] == "ProcResult" && m["proc_id"] == **id && m["res"]["state"] == "terminated").count();
                    if ends == 0 && how != "--exit" { return Err(format!("the server was not told that {id} ended")); }
                    let dels = m.iter().filter(|m| m["type"] == "ProcDelete" && m["proc_id"] == **id).count();
                    let gone = how == "SIGUSR1" || how == "--wait" || how == "--exit" || t1 - t0 < 5000 * MS;
                    if dels != gone as usize { return Err(format!("the server was told {dels} times that {id} was deleted, expected {}", gone as usize)); }
                }
            }
            Ok(())
        }));
        }
    }
    v
}

//---- P26

fn enc(j: &J) -> Vec<u8> { crate::msgpack::encode(&V::from_json(j)) }
/// A websocket frame, unmasked.
fn frame(b0: u8, p: &[u8]) -> Vec<u8> {
    let mut f = vec![b0];
    if p.len() < 126 { f.push(p.len() as u8); } else { f.push(126); f.extend((p.len() as u16).to_be_bytes()); }
    f.extend_from_slice(p);
    f
}
pub fn malformed(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let bases: Vec<J> = vec![
        json!({"type": "Registered"}),
        json!({"type": "ProcStartRequest", "specs": {"z": {"exe": "/px/z", "argv": ["z"], "fds": [["stdout", {"capture": {"mode": "memory"}}]], "env": {"inherit": true, "vars": {}}, "systemd_properties": null}}}),
        json!({"type": "ProcidListRequest"}),
        json!({"type": "ProcResultRequest", "proc_id": "a"}),
        json!({"type": "ProcSignalRequest", "proc_id": "d", "signum": 10}),
        json!({"type": "ProcFdDataRequest", "proc_id": "a", "fd": "stdout", "start": 0, "stop": null}),
        json!({"type": "ProcDeleteRequest", "proc_id": "nn"}),
    ];
    // All messages that differ from a good one in one place.
    let vals: Vec<V> = vec![
        V::Nil, V::Bool(true), V::Int(0), V::Int(-1), V::Int(1), V::Int(255), V::Int(i64::MAX), V::Int(i64::MIN), V::F(1.5), V::F(f64::NAN), V::S("".into()), V::S("x".into()), V::S("\u{0}".into()), V::S("stderr".into()), V::S("3".into()), V::S("-1".into()),
        V::S("99999999999999999999".into()), V::S("é\u{202e}".into()), V::S("x".repeat(3000)), V::S("\u{1d54f}".repeat(800)), V::S(format!("x{}", "\u{1d54f}".repeat(800))), V::A(vec![]), V::A(vec![V::Nil]), V::A(vec![V::S("a".into()); 3]), V::M(vec![]), V::M(vec![(V::S("x".into()), V::Nil)]), V::M(vec![(V::Int(1), V::Int(2))]), V::B(vec![0, 255, 254]), V::B(b"q".to_vec()), V::S("ProcResultRequest".into()),
    ];
    for (bi, base) in bases.iter().enumerate() {
        let base = V::from_json(base);
        // Every path into the message.
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        fn walk(v: &V, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            match v {
                V::M(m) => for (i, (_, x)) in m.iter().enumerate() { p.push(i); out.push(p.clone()); walk(x, p, out); p.pop(); }
                V::A(a) => for (i, x) in a.iter().enumerate() { p.push(i); out.push(p.clone()); walk(x, p, out); p.pop(); }
                _ => {}
            }
        }
        walk(&base, &mut vec![], &mut paths);
        fn at<'x>(v: &'x mut V, p: &[usize]) -> &'x mut V {
            if p.is_empty() { return v; }
            match v { V::M(m) => at(&mut m[p[0]].1, &p[1..]), V::A(a) => at(&mut a[p[0]], &p[1..]), _ => unreachable!() }
        }
        let vals = vals.clone();
        v.push(Scn::new(&format!("message {bi} with one change"), Conf::new(&BOTH), 0, move |w| {
            let s = setup(w)?;
            let p = paths[w.choose("where", paths.len(), 0)].clone();
            let c = w.choose("change", vals.len() + 4, 0);
            let mut m = base.clone();
            if c < vals.len() { *at(&mut m, &p) = vals[c].clone(); }
            else if p.is_empty() {
                // Structure of the whole.
                match c - vals.len() {
                    0 => m = V::A(vec![m.clone(), m]),
                    1 => if let V::M(x) = &mut m { x.push((V::S("extra".into()), V::S("x".into()))) },
                    2 => if let V::M(x) = &mut m { x.reverse() },
                    _ => if let V::M(x) = &mut m { let e = x[0].clone(); x.push(e) },
                }
            } else {
                let (l, up) = (p[p.len() - 1], at(&mut m, &p[..p.len() - 1]));
                match (c - vals.len(), up) {
                    (0, V::M(x)) => { x.remove(l); }
                    (1, V::M(x)) => { let e = x[l].clone(); x.push(e); }
                    (2, V::M(x)) => x[l].0 = V::S("nonsense".into()),
                    (3, V::M(x)) => x[l].0 = V::Int(0),
                    (0, V::A(x)) => { x.remove(l); }
                    (1, V::A(x)) => { let e = x[l].clone(); x.push(e); }
                    (2, V::A(x)) => x.clear(),
                    (_, V::A(x)) => x.insert(0, V::Nil),
                    _ => {}
                }
            }
            w.ws_frame(0, 2, &crate::msgpack::encode(&m));
            after(w, &s)
        }));
    }
    // Ill-formed MessagePack.
    v.push(Scn::new("not MessagePack", Conf::new(&BOTH), 0, move |w| {
        let s = setup(w)?;
        let good = enc(&bases[3]);
        let b = match w.choose("kind", 6, 0) {
            0 => good[..w.choose("cut", good.len(), 0)].to_vec(),
            1 => vec![w.choose("byte", 256, 0) as u8],
            2 => { let mut g = good.clone(); let i = w.choose("at", g.len(), 0); g[i] = [0x00, 0x7f, 0x80, 0x90, 0xa0, 0xbf, 0xc0, 0xc1, 0xc4, 0xc6, 0xc9, 0xcb, 0xd9, 0xdb, 0xdd, 0xdf, 0xff][w.choose("byte", 17, 0)]; g }
            3 => { let mut g = good.clone(); g.extend([0xc0, 0x93, 0xff][w.choose("more", 3, 0)..].iter()); g }
            // Lengths that promise more than there is.
            4 => [vec![0xdb, 0xff, 0xff, 0xff, 0xff], vec![0xdd, 0xff, 0xff, 0xff, 0xff], vec![0xdf, 0xff, 0xff, 0xff, 0xff], vec![0xc6, 0xff, 0xff, 0xff, 0xff], vec![0xc9, 0x7f, 0xff, 0xff, 0xff, 1]][w.choose("length", 5, 0)].clone(),
            // Deep nesting.
            _ => { let mut g = vec![[0x91, 0x81][w.choose("nest", 2, 0)]; [100, 1000, 10000, 200000][w.choose("depth", 4, 0)]]; if g[0] == 0x81 { g = g.iter().flat_map(|_| [0x81, 0x01]).collect(); } g.push(0xc0); g }
        };
        w.ws_frame(0, 2, &b);
        after(w, &s)
    }));
    // Every kind of frame.
    v.push(Scn::new("frames", Conf::new(&BOTH), 0, move |w| {
        let s = setup(w)?;
        let b0 = w.choose("first byte", 256, 0) as u8;
        let p = [vec![], b"x".to_vec(), vec![3, 232], vec![0xff; 126], enc(&json!({"type": "ProcidListRequest"})),
            // Text whose characters start at some offset or other only.
            "\u{1d54f}".repeat(800).into_bytes(), format!("x{}", "\u{1d54f}".repeat(800)).into_bytes(), vec![0xff; 9000]][w.choose("payload", 8, 0)].clone();
        w.ws_raw(0, &frame(b0, &p));
        after(w, &s)
    }));
    v.push(Scn::new("frame headers", Conf::new(&BOTH), 0, move |w| {
        let s = setup(w)?;
        let b0 = [0x82, 0x81, 0x88, 0x89, 0x02, 0x80][w.choose("first byte", 6, 0)];
        let b = match w.choose("header", 6, 0) {
            0 => vec![b0, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            1 => vec![b0, 0x7f, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff],
            2 => vec![b0, 0x7f, 0, 0, 0, 0, 0x10, 0, 0, 0, 1, 2, 3],
            3 => vec![b0, 0x83, 1, 2, 3, 4, 5, 6, 7],
            4 => vec![b0, 0x7e, 0, 3, 1, 2, 3],
            _ => vec![b0, 0xff],
        };
        w.ws_raw(0, &b);
        w.settle()?;
        let drop = w.choose("then lost", 2, 0) == 1;
        if !drop { w.get("/procs").map_err(|e| e)?; }
        w.ws_drop(0);
        after(w, &s)
    }));
    // Sequences of frames.
    v.push(Scn::new("sequences of frames", Conf::new(&BOTH), 0, move |w| {
        let s = setup(w)?;
        let req = enc(&json!({"type": "ProcidListRequest"}));
        let fr: Vec<Vec<u8>> = vec![frame(0x02, &req[..3]), frame(0x80, &req[3..]), frame(0x00, &[]), frame(0x89, b"p"), frame(0x8a, b"q"), frame(0x82, &req), frame(0x81, b"t"), frame(0x88, &[]), frame(0x82, &[])];
        let n = if deep { 4 } else { 3 };
        let sep = w.choose("separately", 2, 0) == 1;
        for _ in 0..n { let c = w.choose("frame", fr.len(), 0); w.ws_raw(0, &fr[c]); if sep { w.settle()?; } }
        after(w, &s)
    }));
    // Instead of the confirmation.
    v.push(Scn::new("before registration", Conf::new(&BOTH), 0, move |w| {
        w.ws_autoreg = false;
        let s = setup(w)?;
        let k = w.choose("kind", 4, 0);
        match k {
            0 => { let m = bases_reg()[w.choose("message", 9, 0)].clone(); w.ws_frame(0, 2, &enc(&m)); }
            1 => { let b0 = w.choose("first byte", 256, 0) as u8; w.ws_raw(0, &frame(b0, b"")); }
            2 => { let p = vals[w.choose("value", vals.len(), 0)].clone(); w.ws_frame(0, 2, &crate::msgpack::encode(&V::M(vec![(V::S("type".into()), p)]))); }
            _ => { let n = 1 + w.choose("cut", 2, 0); w.ws_raw(0, &vec![0x82u8; n]); }
        }
        w.settle()?;
        w.ws_drop(0);
        w.ws_autoreg = true;
        w.settle()?;
        for _ in 0..4 { if w.ws.len() > 1 || w.timeout < 0 { break; } w.expire(); w.settle()?; }
        w.ws_new(0);
        after(w, &s)
    }));
    v
}
fn bases_reg() -> Vec<J> {
    vec![json!({"type": "ProcidListRequest"}), json!({"type": "registered"}), json!({"type": "Registered", "x": 1}), json!({}), json!([]), json!(null), json!("Registered"), json!({"Registered": {}}), json!(["Registered"])]
}
/// A running and an ended process.
fn setup(w: &mut World) -> R<S> {
    let s = sv();
    begin(w, &s, &["a", "d"])?;
    w.emit("a", 1, 20)?;
    let k = w.kid("d").unwrap();
    w.kid_exit(k, 0);
    w.settle()?;
    check(w, &s)?;
    Ok(s)
}
/// Procstar and its processes are unharmed, and the server served.
fn after(w: &mut World, s: &S) -> R {
    w.settle()?;
    if w.exited.is_some() { return Err(format!("procstar ended: {:?}", w.exited)); }
    let t = truth(w)?;
    let mut t2 = t.clone();
    // A change may have made it a valid start or deletion.
    for id in w.m.procs.keys() { if t2.remove(id).is_none() { return Err(format!("process {id} is gone")); } }
    if t2.len() > 1 { return Err(format!("processes from nowhere: {t2:?}")); }
    if let Some(k) = w.kid("a") { if !w.alive(k) { return Err("process a was harmed".into()); } }
    // Then a correct request is answered, by this or another connection.
    w.ws_new(0);
    let _ = s;
    if open(w, 0) && w.ws[0].regd {
        // Its answer may have to wait for the end of an incomplete frame.
        w.req(0, json!({"type": "ProcResultRequest", "proc_id": "d"}));
        w.settle()?;
        if w.ws_new(0).iter().any(|v| v.s("type") == "ProcResult" && v.s("proc_id") == "d") { return Ok(()); }
        w.ws_drop(0);
        w.settle()?;
    } else { w.ws_drop(0); w.settle()?; }
    for _ in 0..6 { if w.ws.last().map(|x| x.regd && x.sock.is_some()).unwrap_or(false) || w.timeout < 0 { break; } w.expire(); w.settle()?; }
    let i = w.ws.len() - 1;
    if i == 0 || !open(w, i) { return Err("procstar does not connect again".into()); }
    let r = w.request(i, json!({"type": "ProcResultRequest", "proc_id": "d"}))?;
    if !r.iter().any(|m| m["type"] == "ProcResult" && m["proc_id"] == "d") { return Err(format!("no answer on the new connection: {r:?}")); }
    Ok(())
}

//---- P28

/// A process that cannot be started, for which procstar needs no fork.
fn dud(id: &str) -> J { json!({"exe": "/px/dud", "argv": [id, "\u{0}"], "fds": [["stdout", capture("memory", None, true)]]}) }
fn duds(w: &mut World, s: &S, p: &str, n: usize) -> J {
    w.m.lenient = true;
    let sp = J::Object((0..n).map(|i| { let id = format!("{p}{i}"); (id.clone(), dud(&id)) }).collect());
    w.expect_procs(&sp);
    let mut s = s.borrow_mut();
    for i in 0..n { let id = format!("{p}{i}"); s.touched.insert(id.clone()); s.fresh.insert(id); }
    sp
}
pub fn bursts(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let sizes: &'static [usize] = if deep { &[300, 520, 1100, 2000] } else { &[1100] };
    // Many starts, ends, deletions at once, in each phase of the connection.
    for ph in ["connected", "registering", "not reading", "reconnected"] {
        v.push(Scn::new(&format!("many processes, {ph}"), Conf::new(&BOTH), 0, move |w| {
            let s = sv();
            if ph == "registering" { w.ws_autoreg = false; }
            begin(w, &s, &["a"])?;
            if ph == "not reading" { w.ws[0].deaf = true; w.emit("a", 1, 200_000)?; for _ in 0..2 { send(w, &s, Q::Fd("a".into())); } w.settle()?; }
            if ph == "reconnected" { w.ws_auto = false; w.ws_drop(0); w.settle()?; }
            let n = sizes[w.choose("number", sizes.len(), 0)];
            let via = if ph == "connected" { w.choose("via", 2, 0) } else { 0 };
            let sp = duds(w, &s, "d", n);
            if via == 0 {
                let i = w.http("POST", "/procs", Some(&json!({"specs": sp})));
                w.settle()?;
                let r = w.take(i)?;
                if r.status != 200 { return Err(format!("POST of many: status {}", r.status)); }
            } else {
                for (k, v) in sp.as_object().unwrap() { w.req(0, json!({"type": "ProcStartRequest", "specs": {k: v}})); }
                w.settle()?;
            }
            let mid = w.choose("check between", 2, 0) == 1;
            if mid && ph == "connected" { check(w, &s)?; }
            // All but some are deleted at once.
            if w.choose("deleted", 2, 0) == 1 {
                for i in 0..n {
                    let id = format!("d{i}");
                    if i % 7 == 6 { continue; }
                    s.borrow_mut().touched.extend([id.clone(), format!("-{id}")]);
                    if via == 1 { w.req(0, json!({"type": "ProcDeleteRequest", "proc_id": id})); }
                    else { let j = w.http("DELETE", &format!("/procs/{id}"), None); s.borrow_mut().https.push((j, id, false)); if i % 100 == 99 { w.settle()?; } }
                }
                w.settle()?;
            }
            match ph {
                "registering" => { check(w, &s)?; w.ws_send(0, &V::from_json(&json!({"type": "Registered"}))); }
                "not reading" => w.ws[0].deaf = false,
                "reconnected" => { let i = w.ws.len() - 1; w.ws_accept(i); }
                _ => {}
            }
            w.settle()?;
            check(w, &s)?;
            let k = w.kid("a").unwrap();
            w.kid_exit(k, 0);
            w.settle()?;
            send(w, &s, Q::Res("a".into()));
            w.settle()?;
            check(w, &s)
        }));
    }
    // Many requests at once.
    v.push(Scn::new("many requests", Conf::new(&BOTH), 0, move |w| {
        let s = sv();
        begin(w, &s, &["a", "d"])?;
        w.emit("a", 1, 1000)?;
        let k = w.kid("d").unwrap();
        w.kid_exit(k, 0);
        w.settle()?;
        check(w, &s)?;
        let n = if deep { 1500 } else { 400 };
        let kind = w.choose("kind", 4, 0);
        for i in 0..n { match (kind, i % 3) { (0, _) => send(w, &s, Q::Res("a".into())), (1, _) => send(w, &s, Q::Fd("a".into())), (2, 0) | (3, 0) => send(w, &s, Q::Ids), (2, _) => send(w, &s, Q::Res("x".into())), _ => send(w, &s, Q::Sig("d".into())) } }
        let k = w.kid("a").unwrap();
        w.kid_exit(k, 0);
        w.settle()?;
        check(w, &s)
    }));
    v.push(Scn::new("many HTTP requests", Conf::new(&BOTH), 0, move |w| {
        let s = sv();
        begin(w, &s, &["a"])?;
        let n = if deep { 300 } else { 150 };
        let mut r = vec![];
        for i in 0..n { r.push(match i % 3 { 0 => w.http("GET", "/procs", None), 1 => w.http("GET", "/procs/a", None), _ => w.http("GET", "/procs/a/output/stdout/data", None) }); }
        w.settle()?;
        for i in r { let r = w.take(i)?; if r.status != 200 { return Err(format!("one of many requests: status {}", r.status)); } }
        check(w, &s)
    }));
    v.push(Scn::new("many HTTP connections kept open", Conf::new(&BOTH), 0, move |w| {
        let s = sv();
        begin(w, &s, &["a"])?;
        let sizes: &[usize] = if deep { &[30, 70, 150, 300, 600, 1200] } else { &[30, 70, 150, 300, 600] };
        let n = sizes[w.choose("number", sizes.len(), 0)];
        let kind = w.choose("kind", 4, 0);
        let req = b"GET /procs/a HTTP/1.1\r\nHost: x\r\n\r\n";
        let cs: Vec<usize> = (0..n).map(|k| {
            let i = w.http_raw("kept open", match if kind == 3 { k % 3 } else { kind } { 0 => b"", 1 => &req[..20], _ => req });
            w.reqs[i].multi = true; w.reqs[i].taken = true;
            i
        }).collect();
        w.settle()?;
        // Others are served nevertheless.
        w.get("/procs").map_err(|e| format!("while {n} connections are open: {e}"))?;
        send(w, &s, Q::Res("a".into()));
        let k = w.kid("a").unwrap();
        if w.choose("ends", 2, 0) == 1 { w.kid_exit(k, 0); }
        w.settle()?;
        check(w, &s).map_err(|e| format!("while {n} connections are open: {e}"))?;
        // And they are when they ask.
        for (k, i) in cs.iter().enumerate() {
            let x = if kind == 3 { k % 3 } else { kind };
            if x == 2 && w.reqs[*i].all.len() != 1 { return Err("no response on a connection that is kept open".into()); }
            w.http_more(*i, if x == 1 { &req[20..] } else { req });
        }
        w.settle()?;
        for (k, i) in cs.iter().enumerate() {
            let x = if kind == 3 { k % 3 } else { kind };
            let r = &w.reqs[*i].all;
            if r.len() != if x == 2 { 2 } else { 1 } || r.iter().any(|r| r.status != 200) { return Err(format!("{} responses on a connection that was kept open", r.len())); }
        }
        for i in cs { w.http_drop(i); }
        w.settle()?;
        check(w, &s)
    }));
    // Nobody is connected, but procstar itself waits for the processes.
    for how in ["--exit", "--wait", "SIGTERM", "SIGINT", "SIGQUIT"] {
        let mut args = vec!["--serve"];
        if how.starts_with("--") { args.push(how); args.push("-"); }
        v.push(Scn::new(&format!("many processes while procstar waits ({how})"), Conf::new(&args), 0, move |w| {
            let s = sv();
            let sp = json!({"a": cap1("a")});
            if how.starts_with("--") {
                w.stdin(&serde_json::to_vec(&json!({"specs": sp})).unwrap());
                w.expect_procs(&sp);
                w.settle()?;
            } else {
                begin(w, &s, &["a"])?;
                let k = w.kid("a").unwrap();
                w.kid_ignore(k, 15);
                w.kid_stop(k);
                match how { "SIGTERM" => w.raise(15), "SIGINT" => w.raise(2), _ => w.raise(3) }
                w.settle()?;
            }
            let n = sizes[w.choose("number", sizes.len(), 0)];
            let sp = duds(w, &s, "d", n);
            let i = w.http("POST", "/procs", Some(&json!({"specs": sp})));
            w.settle()?;
            let r = w.take(i)?;
            if r.status != 200 { return Err(format!("POST of many: status {}", r.status)); }
            if w.exited.is_some() { return Err(format!("procstar ended: {:?}", w.exited)); }
            let k = w.kid("a").unwrap();
            if w.kids[k].phase != Phase::Dead { w.kid_kill(k, 9); }
            w.settle()?;
            match how {
                "--exit" => {}
                _ => {
                    for j in 0..n { w.http("DELETE", &format!("/procs/d{j}"), None); if j % 50 == 49 { w.settle()?; } }
                    w.settle()?;
                    if w.exited.is_some() { return Err(format!("procstar ended: {:?}", w.exited)); }
                    w.http("DELETE", "/procs/a", None);
                    w.settle()?;
                }
            }
            if w.exited != Some(0) { return Err(format!("procstar has not exited: {:?}", w.exited)); }
            Ok(())
        }));
    }
    v
}
