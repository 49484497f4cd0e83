use crate::engine::{Scn, R};
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};

fn mem() -> J { capture("memory", None, true) }
fn tmp() -> J { capture("tempfile", Some("utf-8"), true) }
fn cap1(id: &str) -> J { pspec(id, &[("stdout", mem())]) }

//---- P01: every termination is noticed

pub fn reaping(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let two = json!({"a": cap1("a"), "b": pspec("b", &[("stdout", tmp())])});
    let s = two.clone();
    v.push(Scn::new("two end, also while procstar looks", Conf::serve().mask(if deep { &[K_WAIT, K_READ] } else { &[K_WAIT] }), if deep { 3 } else { 2 }, move |w| {
        w.settle()?;
        w.start_procs(&s)?;
        w.actor(vec![o_write("a", 1, 10), o_exit("a", 3)]);
        w.actor(vec![o_raise("b", 15)]);
        w.actor(vec![o_get("b")]);
        w.inject = true;
        w.interleave(0, true, &|w| w.quiescent())?;
        w.inject = false;
        w.check_list()
    }));
    let three = json!({"a": cap1("a"), "b": cap1("b"), "c": cap1("c")});
    let s = three.clone();
    v.push(Scn::new("three end at once", Conf::serve().mask(&[K_WAIT]), if deep { 4 } else { 3 }, move |w| {
        w.settle()?;
        w.start_procs(&s)?;
        w.actor(vec![o_exit("a", 3)]);
        w.actor(vec![o_exit("b", 0)]);
        w.actor(vec![o_raise("c", 9)]);
        w.inject = true;
        w.interleave(0, true, &|w| w.quiescent())?;
        w.inject = false;
        w.check_list()
    }));
    let s = two.clone();
    v.push(Scn::new("stopped and continued", Conf::serve(), if deep { 4 } else { 2 }, move |w| {
        w.settle()?;
        w.start_procs(&s)?;
        w.actor(vec![o_stop("a"), o_cont("a"), o_write("a", 1, 5), o_exit("a", 1)]);
        w.actor(vec![op("spurious SIGCHLD", |w| { w.raise_chld(); Ok(()) }), o_exit("b", 2)]);
        w.actor(vec![o_get("a")]);
        w.interleave(0, true, &|w| w.quiescent())?;
        w.check_list()
    }));
    let s = three.clone();
    v.push(Scn::new("ends while others start", Conf::serve(), if deep { 4 } else { 3 }, move |w| {
        w.settle()?;
        w.defer = true; w.instant = true;
        let one = json!({"a": s["a"]});
        w.actor(vec![o_start(one), o_proceed(0), o_proceed(0)]);
        w.actor(vec![o_start(json!({"b": s["b"], "c": s["c"]})), o_exit_all()]);
        w.interleave(0, true, &|w| w.quiescent())?;
        for k in 0..w.kids.len() { w.kid_proceed(k); w.kid_proceed(k); }
        w.settle()?;
        for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, 9); } }
        w.settle()?;
        w.quiescent()?;
        w.check_list()
    }));
    v.push(Scn::new("twelve end in one moment", Conf::serve().mask(&[K_WAIT]), 2, move |w| {
        w.settle()?;
        let mut o = serde_json::Map::new();
        for i in 0..12 { let id = format!("p{i:02}"); o.insert(id.clone(), cap1(&id)); }
        w.start_procs(&J::Object(o))?;
        w.actor(vec![op("half exit", |w| { for k in 0..6 { w.kid_exit(k, k as i32); } Ok(()) })]);
        w.actor(vec![op("the others exit", |w| { for k in 6..12 { w.kid_exit(k, k as i32); } Ok(()) })]);
        w.inject = true;
        w.interleave(0, true, &|w| w.quiescent())?;
        w.inject = false;
        w.check_list()
    }));
    v.push(Scn::new("output closed, descendants left", Conf::serve(), if deep { 4 } else { 2 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": pspec("a", &[("stdout", mem()), ("stderr", json!({"dup": {"fd": 1}}))]), "b": cap1("b")}))?;
        let k = w.kid("a").unwrap();
        w.kid_fork(k);
        w.actor(vec![o_close("a", 1), o_close("a", 2), o_get("a"), o_exit("a", 4)]);
        w.actor(vec![o_close("b", 1), o_get("b"), o_exit("b", 5)]);
        w.actor(vec![op("descendant ends", |w| { let k = w.kid("a").unwrap(); if w.kids[k].grand[0].is_some() { w.grand_exit(k, 0); } Ok(()) })]);
        w.interleave(0, true, &|w| w.quiescent())?;
        w.check_list()
    }));
    v
}

//---- P02: statuses

pub fn statuses(_deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for mode in ["http", "print", "agent"] {
        let mk = move |name: &str, pick: fn(&mut World) -> R<()>| {
            let args: &[&str] = match mode { "http" => &["--serve"], "print" => &["--print", "-"], _ => &["--agent", "--agent-host", "127.0.0.1"] };
            let mut c = Conf::new(args);
            let spec = json!({"a": cap1("a")});
            if mode == "print" { c.stdin = json!({"specs": spec}).to_string().into_bytes(); }
            Scn::new(&format!("{name} via {mode}"), c, 0, move |w| {
                match mode {
                    "http" => { w.settle()?; w.start_procs(&spec)?; }
                    "print" => { w.expect_procs(&spec); w.settle()?; }
                    _ => { w.settle()?; w.expect_procs(&spec); w.req(0, json!({"type": "ProcStartRequest", "specs": spec})); w.settle()?; }
                }
                pick(w)?;
                w.settle()?;
                match mode {
                    "http" => { w.quiescent()?; w.check_list() }
                    "print" => w.check_print(),
                    _ => {
                        w.quiescent()?;
                        let m: Vec<J> = w.ws_new(0).iter().map(|v| v.json()).collect();
                        let l = m.last().cloned().unwrap_or(J::Null);
                        if l["type"] != "ProcResult" { return Err(format!("last message {}", l["type"])); }
                        let lo = w.snap();
                        w.check_res("a", &l["res"], &lo)
                    }
                }
            })
        };
        v.push(mk("exit codes", |w| { let c = w.choose("code", 256, 0); let k = w.kid("a").unwrap(); w.kid_exit(k, c as i32); Ok(()) }));
        v.push(mk("signals", |w| {
            let sigs: Vec<i32> = (1..32).chain(34..65).filter(|s| ![17, 18, 19, 20, 21, 22, 23, 28].contains(s)).collect();
            let c = w.choose("signal", sigs.len(), 0);
            w.core = w.choose("core", 2, 0) == 1;
            let k = w.kid("a").unwrap();
            w.kid_raise(k, sigs[c]);
            Ok(())
        }));
    }
    v
}

//---- P14: the table of processes

pub fn table(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for depth in [if deep { 7 } else { 5 }] {
        v.push(Scn::new("requests in any order", Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]), depth * 10, move |w| {
            w.settle()?;
            let mut mirror = std::collections::BTreeMap::<String, J>::new();
            // Possibly b can't be started.
            let bad = w.choose("b fails", 2, 10) == 1;
            if bad { w.exec_errno = Some(std::rc::Rc::new(|x| if x.exe == b"/px/b" { libc::ENOENT } else { 0 })); }
            for _ in 0..depth {
                let have: Vec<String> = w.m.procs.keys().cloned().collect();
                let mut ops: Vec<(u8, String)> = vec![];
                for id in ["a", "b"] {
                    ops.push((0, id.into()));                               // start (or duplicate)
                    ops.push((2, id.into()));                               // delete (or refused or unknown)
                    if have.contains(&id.to_string()) && w.running(id) { ops.push((4, id.into())); }
                }
                ops.push((1, "a".into()));                                  // start a and c together
                if deep { ops.push((3, "a".into())); ops.push((5, "a".into())); }
                let c = w.choose("op", ops.len(), 1);
                let via = if deep { w.choose("via", 2, 1) } else { c % 2 };
                let (o, id) = ops[c].clone();
                match o {
                    0 | 1 | 5 => {
                        // 5: starts nothing at all
                        let mut sp = serde_json::Map::new();
                        if o != 5 { sp.insert(id.clone(), cap1(&id)); }
                        if o == 1 { sp.insert("c".into(), cap1("c")); }
                        let sp = J::Object(sp);
                        let dup = sp.as_object().unwrap().keys().any(|k| have.contains(k));
                        if !dup { w.expect_procs(&sp); }
                        let n0 = w.kids.len();
                        if via == 0 {
                            let r = w.call("POST", "/procs", Some(&json!({"specs": sp})))?;
                            if (r.status == 200) == dup || (dup && r.status / 100 != 4) { return Err(format!("start (duplicate: {dup}): status {}", r.status)); }
                        } else {
                            let m = w.request(0, json!({"type": "ProcStartRequest", "specs": sp}))?;
                            let e = m.iter().any(|m| m["type"] == "RequestError");
                            if e != dup { return Err(format!("start (duplicate: {dup}) over the connection: error {e}")); }
                        }
                        let n = w.kids.len() - n0;
                        let want = if dup { 0 } else { sp.as_object().unwrap().len() };
                        if n != want { return Err(format!("start made {n} processes, expected {want}")); }
                    }
                    2 => {
                        let run = have.contains(&id) && w.running(&id);
                        let known = have.contains(&id);
                        if via == 0 {
                            let r = w.call("DELETE", &format!("/procs/{id}"), None)?;
                            let ok = if !known { r.status == 404 } else if run { r.status / 100 == 4 && r.status != 404 } else { r.status == 200 };
                            if !ok { return Err(format!("delete (known: {known}, running: {run}): status {}", r.status)); }
                        } else {
                            let m = w.request(0, json!({"type": "ProcDeleteRequest", "proc_id": id}))?;
                            let want = if !known { "ProcUnknown" } else if run { "RequestError" } else { "ProcDelete" };
                            let t: Vec<String> = m.iter().map(|m| m["type"].as_str().unwrap_or("").to_string()).collect();
                            if t != [want] { return Err(format!("delete (known: {known}, running: {run}) over the connection: {t:?}")); }
                        }
                        if known && !run { w.forget(&id); }
                    }
                    3 => { w.call("GET", "/procs/nosuch", None).and_then(|r| if r.status == 404 { Ok(()) } else { Err(format!("unknown process: status {}", r.status)) })?; }
                    _ => { let k = w.kid(&id).unwrap(); w.kid_exit(k, 5); w.settle()?; }
                }
                // What the connection was told.
                for m in w.ws[0].got.iter().map(|v| v.json()).skip(mirror.remove("#").and_then(|j| j.as_u64()).unwrap_or(0) as usize).collect::<Vec<_>>() {
                    match m["type"].as_str().unwrap_or("") {
                        "ProcResult" => { mirror.insert(m["proc_id"].as_str().unwrap().into(), m["res"].clone()); }
                        "ProcDelete" => { mirror.remove(m["proc_id"].as_str().unwrap()); }
                        _ => {}
                    }
                }
                w.ws[0].seen = w.ws[0].got.len();
                w.quiescent()?;
                w.check_list()?;
                for id in ["a", "b", "c"] {
                    let r = w.call("GET", &format!("/procs/{id}"), None)?;
                    if (r.status == 200) != w.m.procs.contains_key(id) || ![200, 404].contains(&r.status) { return Err(format!("GET of process {id}: status {}", r.status)); }
                }
                let m = w.request(0, json!({"type": "ProcidListRequest"}))?;
                let have: Vec<String> = w.m.procs.keys().cloned().collect();
                if m.len() != 1 || m[0]["type"] != "ProcidList" || m[0]["proc_ids"] != json!(have) { return Err(format!("list over the connection: {m:?}, expected {have:?}")); }
                if mirror.keys().cloned().collect::<Vec<_>>() != have { return Err(format!("notifications leave {:?}, but there are {have:?}", mirror.keys().collect::<Vec<_>>())); }
                let lo = w.snap();
                for (id, j) in &mirror {
                    let over = j["state"] == "terminated";
                    let over = over || j["state"] == "error";
                    let dead = lo.dead[id] || bad && id == "b";
                    if over != dead { return Err(format!("last notification about {id} has state {}", j["state"])); }
                }
                mirror.insert("#".into(), json!(w.ws[0].got.len()));
            }
            Ok(())
        }));
    }
    v
}

//---- P15: signals

pub fn signals(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for via in ["http", "agent"] {
        v.push(Scn::new(&format!("each signal in each state via {via}"), Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]), 0, move |w| {
            w.settle()?;
            let state = w.choose("state", 7, 0);
            if state == 2 { w.exec_errno = Some(std::rc::Rc::new(|x| if x.exe == b"/px/a" { libc::ENOENT } else { 0 })); }
            w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
            let (k, kb) = if state == 2 { (0, 1) } else { (w.kid("a").unwrap(), w.kid("b").unwrap()) };
            match state {
                0 | 2 => {}
                1 => { w.kid_stop(k); }
                3 => { w.kid_exit(k, 1); }
                6 => { let p = w.kids[k].pid; w.immune.push(p); }
                4 => { w.kid_exit(k, 1); w.settle()?; let r = w.call("DELETE", "/procs/a", None)?; if r.status != 200 { return Err("delete failed".into()); } }
                _ => {}
            }
            w.settle()?;
            w.kids[k].got.clear();
            let mut names: Vec<(String, Option<i32>)> = (1..65).map(|n| (n.to_string(), Some(n))).collect();
            names.push(("0".into(), Some(0)));
            for n in (65..300).chain([-1, -9, -15, -128, -247, 1000, 0x10009, i32::MAX - 15, i32::MAX, i32::MIN, i32::MIN + 9]) { names.push((n.to_string(), None)); }
            if via == "http" {
                for n in 1..32 { if n != 16 { names.push((ABBREV[n].to_string(), Some(n as i32))); } }
                for n in ["TERM", "SIGFOO", "sigterm", "", "%20", "15x", "15.0", "%2015", "99999999999999", "4294967305", "18446744073709551625", "SIGTERM%20", "SIG15", "sigkill", "KILL"] { names.push((n.to_string(), None)); }
            }
            let c = w.choose("signal", names.len(), 0);
            let (n, num) = names[c].clone();
            let id = if state == 5 { "zz" } else { "a" };
            // Accepted?
            let ok = if via == "http" {
                let r = w.call("POST", &format!("/procs/{id}/signals/{n}"), None)?;
                if r.status != 200 && r.status / 100 != 4 && !(state == 6 && r.status / 100 == 5) { return Err(format!("signal {n}: status {}", r.status)); }
                if [4, 5].contains(&state) && num.is_some() && r.status != 404 { return Err(format!("signal to unknown process: status {}", r.status)); }
                r.status == 200
            } else {
                let m = w.request(0, json!({"type": "ProcSignalRequest", "proc_id": id, "signum": n.parse::<i64>().unwrap()}))?;
                let t: Vec<String> = m.iter().map(|m| m["type"].as_str().unwrap_or("").to_string()).collect();
                if [4, 5].contains(&state) && t != ["ProcUnknown"] { return Err(format!("signal to unknown process: {t:?}")); }
                !t.iter().any(|t| t == "RequestError" || t == "ProcUnknown")
            };
            w.quiescent()?;
            let want = state < 2 && num.is_some();
            if ok != want { return Err(format!("signal {n} in state {state}: accepted {ok}, expected {want}")); }
            let got = w.kids[k].got.clone();
            let expect: Vec<i32> = if want && num != Some(0) { vec![num.unwrap()] } else { vec![] };
            let g: Vec<i32> = got.into_iter().filter(|s| *s != 0).collect();
            if g != expect { return Err(format!("signal {n} in state {state}: the process got {g:?}")); }
            if !w.kids[kb].got.is_empty() { return Err("another process was signalled".into()); }
            if state < 4 || state == 6 { w.check_list() } else { Ok(()) }
        }));
    }
    v.push(Scn::new("signals during life and death", Conf::serve().mask(&[K_WAIT]), if deep { 4 } else { 2 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
        let sg = |id: &'static str, s: i32| op(&format!("ask to signal {id} with {s}"), move |w| { w.ask("POST", &format!("/procs/{id}/signals/{s}"), None, &[200, 400, 404, 409]); Ok(()) });
        w.actor(vec![sg("a", 10), sg("a", 15), sg("a", 9)]);
        w.actor(vec![o_exit("a", 2), op_if("delete a", |w| w.m.expect.is_empty() || true, |w| { w.ask("DELETE", "/procs/a", None, &[200, 400, 404, 409]); Ok(()) })]);
        w.actor(vec![o_stop("b"), sg("b", 15), sg("b", 18)]);
        w.inject = true;
        w.interleave(1, true, &|w| { w.check_reaped()?; w.check_pending() })?;
        w.inject = false;
        w.check_reaped()
    }));
    v.push(Scn::new("signals to a process about to start", Conf::serve(), if deep { 4 } else { 3 }, move |w| {
        w.settle()?;
        w.defer = true;
        let sig = [15, 9, 2, 3, 10, 12, 1, 13, 14, 34][w.choose("signal", 10, 0)];
        w.actor(vec![o_start(json!({"a": cap1("a"), "b": cap1("b")})), op("ask to signal a", move |w| { w.ask("POST", &format!("/procs/a/signals/{sig}"), None, &[200]); Ok(()) })]);
        w.actor(vec![o_proceed(0), o_proceed(0)]);
        w.interleave(0, true, &|w| { w.check_reaped()?; w.check_pending() })?;
        for k in 0..w.kids.len() { w.kid_proceed(k); w.kid_proceed(k); }
        w.settle()?;
        w.check_reaped()?;
        // The signal kills, whenever it comes.
        if w.kids[0].phase != Phase::Dead { return Err(format!("process survives signal {sig}, sent right after its start")); }
        if w.kids[0].status != Some(sig) { return Err(format!("process got signal {sig}, but ends with status {:?}", w.kids[0].status)); }
        if w.kids[1].phase == Phase::Dead { return Err("another process died".into()); }
        let d = w.get("/procs/a")?;
        if d["procs"]["a"]["status"]["signum"] != sig { return Err(format!("reported status {}", d["procs"]["a"]["status"])); }
        Ok(())
    }));
    v
}
