use crate::engine::{Scn, R};
use crate::model::*;
use crate::props::fds::{check_table, rejects, same_fds, baseline};
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn cap1(id: &str) -> J { pspec(id, &[("stdout", capture("memory", None, true))]) }
const AGENT: [&str; 4] = ["--serve", "--agent", "--agent-host", "127.0.0.1"];

/// Start processes via HTTP, the agent connection, or from stdin (before the first settle).
fn start_via(w: &mut World, via: &str, specs: &J) -> R {
    match via {
        "http" => { w.settle()?; w.start_procs(specs)?; }
        "agent" => {
            w.settle()?;
            w.expect_procs(specs);
            let m = w.request(0, json!({"type": "ProcStartRequest", "specs": specs}))?;
            if let Some(e) = m.iter().find(|m| m["type"] == "RequestError") { return Err(format!("start request: {}", e["err"])); }
        }
        _ => { w.expect_procs(specs); w.stdin(&serde_json::to_vec(&json!({"specs": specs})).unwrap()); w.settle()?; }
    }
    Ok(())
}
fn conf_via(via: &str, extra: &[&str]) -> Conf {
    let mut a: Vec<&str> = match via { "http" => vec!["--serve"], "agent" => AGENT.to_vec(), _ => vec!["--serve"] };
    a.extend(extra);
    if via == "stdin" { a.push("-"); }
    Conf::new(&a)
}

//---- P09: environment

const SECRETS: [&str; 3] = ["PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_TOKEN"];

pub fn environment(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for via in ["http", "agent", "stdin"] {
        for set in ["plain", "secrets", "not text"] {
            let mut c = conf_via(via, &[]).env("A", "1").env("EMPTY", "").env("EQ", "a=b=c").env("U", "\u{fc}\u{4e2d}").env("SP", " x  y ");
            if set == "secrets" {
                c = c.env(SECRETS[1], "the key").env(SECRETS[2], "the token").env("PROCSTAR_AGENT_HOST", "h").env("PROCSTAR_AGENT_TOKEN2", "t2").env("XPROCSTAR_AGENT_KEY", "k");
                if via != "agent" { c = c.env(SECRETS[0], "/nonexistent"); }
            }
            if set == "not text" { c = c.envb(b"BAD", b"x\xff\xfe").envb(b"B\xe9D", b"y").env("Z", "26"); }
            let base = c.env.clone();
            v.push(Scn::new(&format!("{set} via {via}"), c, 0, move |w| {
                let forms: Vec<Option<J>> = vec![None, Some(json!(true)), Some(json!(false)), Some(json!([])), Some(json!(["A"])), Some(json!(["EMPTY", "NOPE", "EQ"])), Some(json!(["A", "A", "U", "SP", "BAD"])),
                    Some(json!(["A", SECRETS[1], SECRETS[2], SECRETS[0]])), Some(json!(["PROCSTAR_AGENT_TOKEN2", "PROCSTAR_AGENT_HOST", "a", "A=1", ""]))];
                let inh = forms[w.choose("inherit", forms.len(), 0)].clone();
                let mut vars = serde_json::Map::new();
                let keys: &[(&str, &[&str])] = &[("A", &["2"]), ("EMPTY", &["", "full"]), ("NEW", &["", "x=y", "\u{20ac} z"]), (SECRETS[2], &["mine"])];
                for (k, vals) in keys {
                    let c = w.choose("var", 2 + if deep { vals.len() } else { 1 }, 0);
                    if c == 1 { vars.insert(k.to_string(), J::Null); }
                    if c >= 2 { let i = if deep { c - 2 } else { (w.ch.trace.len() + w.ch.trace[0].took as usize) % vals.len() }; vars.insert(k.to_string(), json!(vals[i])); }
                }
                let mut e = serde_json::Map::new();
                if let Some(i) = &inh { e.insert("inherit".into(), i.clone()); }
                if !vars.is_empty() { e.insert("vars".into(), J::Object(vars.clone())); }
                let mut spec = cap1("a");
                if !e.is_empty() || w.ch.trace[0].took % 2 == 1 { spec["env"] = J::Object(e.clone()); }
                start_via(w, via, &json!({"a": spec}))?;
                let x = match w.kid("a") { Some(k) if w.kids[k].execd => w.kids[k].exec.clone().unwrap(), _ => return Err(format!("the process was not started (env {e:?})")) };
                // What is expected, and what is optional.
                let mut want = BTreeMap::<Vec<u8>, Vec<u8>>::new();
                let mut opt = BTreeSet::new();
                for (k, val) in &base {
                    let take = match &inh { None => true, Some(J::Bool(b)) => *b, Some(l) => l.as_array().unwrap().iter().any(|n| n.as_str().unwrap().as_bytes() == &k[..]) };
                    if !take || SECRETS.iter().any(|s| s.as_bytes() == &k[..]) { continue; }
                    if std::str::from_utf8(k).is_err() || std::str::from_utf8(val).is_err() { opt.insert([&k[..], b"=", &val[..]].concat()); continue; }
                    want.insert(k.clone(), val.clone());
                }
                for (k, val) in &vars {
                    match val { J::Null => { want.remove(k.as_bytes()); } s => { want.insert(k.as_bytes().to_vec(), s.as_str().unwrap().as_bytes().to_vec()); } }
                }
                let want: Vec<Vec<u8>> = want.iter().map(|(k, v)| [&k[..], b"=", &v[..]].concat()).collect();
                let mut have: Vec<Vec<u8>> = x.env.iter().filter(|e| !opt.contains(*e)).cloned().collect();
                have.sort();
                let mut want = want; want.sort();
                if have != want {
                    let d: Vec<String> = have.iter().filter(|h| !want.contains(h)).map(|h| format!("+{}", String::from_utf8_lossy(h))).chain(want.iter().filter(|h| !have.contains(h)).map(|h| format!("-{}", String::from_utf8_lossy(h)))).collect();
                    return Err(format!("environment differs: {d:?} (inherit {inh:?}, vars {vars:?})"));
                }
                let k = w.kid("a").unwrap();
                w.kid_exit(k, 0);
                w.settle()?;
                w.check_list()
            }));
        }
        // A very large environment, of which much, or nothing, is inherited.
        let mut c = conf_via(via, &[]);
        for i in 0..1500 { c = c.env(&format!("V{i}"), &format!("{i}")); }
        c = c.env("LONG", &"l".repeat(90_000));
        let base = c.env.clone();
        v.push(Scn::new(&format!("large via {via}"), c, 0, move |w| {
            let inh: J = match w.choose("inherit", 4, 0) { 0 => json!(true), 1 => json!(false), 2 => json!((0..1500).rev().filter(|i| i % 2 == 0).map(|i| format!("V{i}")).collect::<Vec<_>>()), _ => json!(["LONG", "V0", "V1499"]) };
            let nv = [0, 1200][w.choose("vars", 2, 0)];
            let vars: serde_json::Map<String, J> = (0..nv).map(|i| (format!("V{}", i * 2), if i % 3 == 0 { J::Null } else { json!("n".repeat(i)) })).collect();
            let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
            for (k, v) in &base {
                if SECRETS.iter().any(|s| s.as_bytes() == &k[..]) { continue; }
                if match &inh { J::Bool(b) => *b, J::Array(a) => a.iter().any(|x| x.as_str().unwrap().as_bytes() == &k[..]), _ => false } { want.insert(k.to_vec(), v.to_vec()); }
            }
            for (k, v) in &vars { if let J::String(v) = v { want.insert(k.clone().into_bytes(), v.clone().into_bytes()); } else { want.remove(k.as_bytes()); } }
            let s = json!({"argv": ["x"], "env": {"inherit": inh, "vars": vars}});
            if via == "stdin" { w.expect_procs(&json!({"p": s})); w.stdin(&serde_json::to_vec(&json!({"specs": {"p": s}})).unwrap()); w.settle()?; }
            else { start_via(w, via, &json!({"p": s}))?; }
            let Some(k) = w.kids.iter().position(|k| k.execd) else { return Err("not executed".into()); };
            let have: BTreeSet<Vec<u8>> = w.kids[k].exec.as_ref().unwrap().env.iter().cloned().collect();
            let want: BTreeSet<Vec<u8>> = want.iter().map(|(k, v)| [&k[..], b"=", &v[..]].concat()).collect();
            if have != want { let f = |s: &BTreeSet<Vec<u8>>, o: &BTreeSet<Vec<u8>>| s.difference(o).take(5).map(|x| String::from_utf8_lossy(x).chars().take(40).collect::<String>()).collect::<Vec<_>>(); return Err(format!("large environment differs: lacks {:?}, has {:?} too many", f(&want, &have), f(&have, &want))); }
            w.kid_exit(k, 0);
            w.settle()?;
            w.check_list()
        }));
    }
    v
}

//---- P10: what is executed

pub fn execution(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let exes: Vec<Option<String>> = vec![None, Some("/px/a".into()), Some("bin/rel".into()), Some("".into()), Some("/px/with space \u{fc}".into()), Some(format!("/{}", "x".repeat(4000))), Some("/px/a\n\t\"'\\$".into())];
    let argvs: Vec<Vec<String>> = vec![
        vec!["a".into()], vec!["/px/a".into(), "-x".into(), "".into(), "b c".into()], vec!["".into()], vec!["".into(), "".into()], vec!["n".into(), "\u{fc}\n\t$HOME `x`".into(), "--".into(), "*".into()],
        (0..1000).map(|i| format!("arg{i}")).collect(), vec!["big".into(), "y".repeat(30_000), "z".into()], vec!["dup".into(), "dup".into(), "dup".into()], vec![],
        (0..30).map(|i| format!("{i}{}", "y".repeat(100_000))).collect(), vec!["one".into(), "\u{20ac}".repeat(700_000)],
    ];
    for via in ["http", "agent", "stdin"] {
        let igns: Vec<Vec<i32>> = if deep { vec![vec![], vec![1], vec![2, 3], vec![13], vec![10, 15], vec![17], vec![34, 64]] } else { vec![vec![], vec![1], vec![13, 15, 40]] };
        for ign in igns {
            let mut c = conf_via(via, &[]);
            c.ign = ign.clone();
            let (exes, argvs, ign) = (exes.clone(), argvs.clone(), ign.clone());
            v.push(Scn::new(&format!("started via {via} with signals {ign:?} ignored"), c, 0, move |w| {
                let exe = &exes[w.choose("exe", exes.len(), 0)];
                let argv = &argvs[w.choose("argv", argvs.len(), 0)];
                if exe.is_none() && argv.is_empty() { return Ok(()); }
                let mut s = json!({"argv": argv, "fds": [["stdout", capture("memory", None, true)]]});
                if let Some(e) = exe { s["exe"] = json!(e); }
                if via == "stdin" { w.expect_procs(&json!({"p": s})); w.stdin(&serde_json::to_vec(&json!({"specs": {"p": s}})).unwrap()); w.settle()?; }
                else { start_via(w, via, &json!({"p": s}))?; }
                let Some(k) = w.kids.iter().position(|k| k.execd) else { return Err(format!("exe {exe:?}, argv {argv:?}: not executed")); };
                let x = w.kids[k].exec.clone().unwrap();
                let want = exe.clone().unwrap_or_else(|| argv[0].clone());
                if x.exe != want.as_bytes() { return Err(format!("executes {:?}, not {want:?}", String::from_utf8_lossy(&x.exe))); }
                if x.argv != argv.iter().map(|a| a.as_bytes().to_vec()).collect::<Vec<_>>() { return Err(format!("arguments of {:?} are {:?}", argv.iter().map(|a| a.chars().take(50).collect::<String>()).collect::<Vec<_>>(), x.argv.iter().map(|a| String::from_utf8_lossy(a).chars().take(50).collect::<String>()).collect::<Vec<_>>())); }
                if x.sid != x.pid || x.pgid != x.pid { return Err(format!("the process is in session {} of {}", if x.sid == x.pid { "its own" } else { "procstar" }, "another process group")); }
                if x.blk != 0 { return Err(format!("signals {:#x} are blocked", x.blk)); }
                for n in 1..65 { if x.ign & (1 << (n - 1)) != 0 && !ign.contains(&n) { return Err(format!("signal {n} is ignored")); } }
                if x.cwd != w.scratch() { return Err(format!("working directory is {}", x.cwd)); }
                if x.umask != 0o022 { return Err(format!("umask is {:o}", x.umask)); }
                w.kid_exit(k, 0);
                w.settle()?;
                w.check_list()
            }));
        }
        v.push(Scn::new(&format!("restricted via {via}"), conf_via(via, &["--restrict-exe", "/px/a"]), 0, move |w| {
            let all: Vec<(Option<&str>, &str)> = vec![(Some("/px/a"), "x"), (None, "/px/a"), (Some("/px/b"), "/px/a"), (None, "/px/b"), (Some(""), "/px/a"), (Some("/px/a "), "/px/a"), (Some("/px/aa"), "/px/a"), (Some("/px/"), "/px/a"), (Some("a"), "/px/a"), (None, "a"), (None, ""), (Some("px/a"), "/px/a"), (Some("/px/A"), "x"), (Some("/bin/sh"), "/px/a"), (Some("*"), "/px/a"), (Some("/px/a/"), "/px/a"), (None, "/px/a/"), (Some("//px/a"), "x"), (Some("/px/./a"), "x"), (Some("/PX/A"), "x"), (Some("/px/a\n"), "x"), (Some(" /px/a"), "x"), (Some("x"), "/px/a"), (None, "a"), (Some("../px/a"), "x")];
            let n = if deep { all.len() } else { all.len() };
            let (e1, a1) = all[w.choose("first", n, 0)];
            let (e2, a2) = all[w.choose("second", n, 0)];
            let mk = |e: Option<&str>, a: &str| { let mut s = json!({"argv": [a, "1"], "fds": [["1", capture("tempfile", None, true)]]}); if let Some(e) = e { s["exe"] = json!(e); } s };
            let specs = json!({"p": mk(e1, a1), "q": mk(e2, a2)});
            let ok = |e: Option<&str>, a: &str| e.unwrap_or(a) == "/px/a";
            let any = |w: &World| w.kids.iter().filter(|k| k.exec.is_some()).count();
            match via {
                "stdin" => { w.expect_procs(&specs); w.stdin(&serde_json::to_vec(&json!({"specs": specs})).unwrap()); w.settle()?; }
                _ => start_via(w, via, &specs)?,
            }
            for k in &w.kids { if let Some(x) = &k.exec { if x.exe != b"/px/a" { return Err(format!("executes {:?} though restricted", String::from_utf8_lossy(&x.exe))); } } }
            let want = ok(e1, a1) as usize + ok(e2, a2) as usize;
            if any(w) != want { return Err(format!("{} of two processes are executed, expected {want}", any(w))); }
            for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, 0); } }
            w.settle()?;
            let d = w.get("/procs")?;
            for (id, good) in [("p", ok(e1, a1)), ("q", ok(e2, a2))] {
                let r = &d["procs"][id];
                if good != (r["state"] == "terminated") || good != (r["errors"] == json!([])) { return Err(format!("restricted: result with state {}, errors {}", r["state"], r["errors"])); }
            }
            Ok(())
        }));
    }
    v
}

//---- P11: all or nothing

pub fn requests(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for via in ["http", "agent"] {
        v.push(Scn::new(&format!("one defect via {via}"), Conf::new(&AGENT), 0, move |w| {
            w.settle()?;
            w.start_procs(&json!({"old": cap1("old")}))?;
            let st = w.choose("old process", 3, 0);
            let k = w.kid("old").unwrap();
            w.emit("old", 1, 20)?;
            if st == 1 { w.kid_exit(k, 3); w.settle()?; }
            let defects = rejects();
            let (what, bad) = defects[w.choose("defect", defects.len(), 0)].clone();
            let at = ["0", "m", "zz"][w.choose("position", 3, 0)];
            let idle = st == 2;
            if idle { w.raise(10); w.settle()?; }
            let sink = json!({"argv": ["z"], "exe": "/px/z", "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "5"}}]]});
            let mut good = json!({"a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("5", json!("pipe-write"))]), "z": sink});
            let mut s = good.clone();
            if bad.is_string() { s["old"] = cap1("old"); } else { s[at] = bad; }
            let base = if w.ch.trace.len() % 2 == 0 { Some(fds_of(w)?) } else { None };
            let (n0, t0) = (w.kids.len(), w.temps.len());
            // Well-formed as a message?
            let formed = !["unknown key", "argv of numbers", "spec not an object", "null spec", "fd kind", "fd flags", "capture mode", "env inherit", "env var"].contains(&what);
            send_start(w, via, &s, true, formed, what)?;
            if w.kids.len() != n0 { return Err(format!("{what}: the request was rejected, but {} processes were started", w.kids.len() - n0)); }
            if w.temps.len() != t0 && w.temps[t0..].iter().any(|t| std::path::Path::new(t).exists()) { return Err(format!("{what}: a temporary file is left")); }
            w.quiescent()?;
            w.check_list()?;
            if let Some(b) = base { same_fds(w, &b, "after a rejected request")?; }
            // The IDs are available, unless procstar is about to shut down.
            good["y"] = cap1("y");
            if !idle { w.expect_procs(&good); }
            send_start(w, via, &good, idle, true, "after a rejected request")?;
            if idle { if w.kids.len() != n0 { return Err("processes were started though procstar is shutting down".into()); } }
            else {
                if w.kids.len() != n0 + 3 { return Err(format!("{} processes were started of 3", w.kids.len() - n0)); }
                w.emit("a", 1, 7)?;
            }
            if w.running("old") { w.emit("old", 1, 5)?; }
            w.settle()?;
            w.check_list()
        }));
        v.push(Scn::new(&format!("accepted via {via}"), Conf::new(&AGENT), 0, move |w| {
            w.settle()?;
            let n = w.choose("processes", if deep { 9 } else { 5 }, 0);
            let ids = ["m", "", "a b/c?&%", "\u{fc}", "z", "10", "9", "Z", "0"];
            let mut s = serde_json::Map::new();
            for i in 0..n { s.insert(ids[i].to_string(), json!({"exe": "/px/x", "argv": [ids[i]], "fds": [["stdout", capture("memory", None, true)]]})); }
            let f = w.choose("fails", n + 1, 0);
            if f > 0 { let id = ids[f - 1]; w.exec_errno = Some(Rc::new(move |x| if x.argv[0] == id.as_bytes() { libc::EACCES } else { 0 })); }
            let s = J::Object(s);
            w.expect_procs(&s);
            w.ws_new(0);
            send_start(w, via, &s, false, true, "accepted")?;
            if w.kids.len() != n { return Err(format!("{} processes of {n} were started", w.kids.len())); }
            let told: BTreeSet<String> = w.ws[0].got.iter().map(|v| v.json()).filter(|m| m["type"] == "ProcResult").map(|m| m["proc_id"].as_str().unwrap().to_string()).collect();
            if told != s.as_object().unwrap().keys().cloned().collect() { return Err(format!("notice of the start of {told:?}")); }
            w.quiescent()?;
            w.check_list()
        }));
        v.push(Scn::new(&format!("NUL bytes via {via}"), Conf::new(&AGENT), 0, move |w| {
            w.settle()?;
            let bad = [json!({"argv": ["m\u{0}x"]}), json!({"exe": "/px/m\u{0}", "argv": ["m"]}), json!({"argv": ["m", "a\u{0}"]}), json!({"argv": ["m"], "env": {"vars": {"A\u{0}": "1"}}}), json!({"argv": ["m"], "env": {"vars": {"A": "\u{0}"}}}),
                json!({"argv": ["m"], "fds": [["1", {"file": {"path": "/tmp/x\u{0}y"}}]]}), json!({"argv": ["m"], "env": {"inherit": ["A\u{0}"]}})];
            let c = w.choose("where", bad.len(), 0);
            let s = json!({"a": cap1("a"), "m": bad[c]});
            let all = if via == "http" { let i = w.http("POST", "/procs", Some(&json!({"specs": s}))); w.settle()?; let r = w.take(i)?; if r.status != 200 && r.status / 100 != 4 { return Err(format!("status {}", r.status)); } r.status == 200 }
                else { !w.request(0, json!({"type": "ProcStartRequest", "specs": s}))?.iter().any(|m| m["type"] == "RequestError") };
            let d = w.get("/procs")?;
            if !all { if w.kids.len() != 0 || d["procs"] != json!({}) { return Err("rejected, but processes were started".into()); } return Ok(()); }
            if d["procs"].as_object().unwrap().len() != 2 { return Err("not both processes are listed".into()); }
            if !w.running("a") { return Err("the other process was not started".into()); }
            let run = w.kids.iter().filter(|k| k.execd).count();
            if c != 6 { if run != 1 { return Err("a process with a NUL byte in its specification was executed".into()); }
                if d["procs"]["m"]["state"] != "error" || d["procs"]["m"]["errors"] == json!([]) { return Err(format!("state {} with errors {}", d["procs"]["m"]["state"], d["procs"]["m"]["errors"])); } }
            Ok(())
        }));
    }
    v.push(Scn::new("competing requests", Conf::new(&AGENT).mask(&[K_SELECT]), 1, move |w| {
        w.settle()?;
        let sets: [&[&str]; 4] = [&["p", "q"], &["q", "r"], &["r", "p"], &["p"]];
        let n = if deep { 4 } else { 3 };
        let mut todo: Vec<usize> = (0..n).collect();
        let mut sent = vec![];
        let split = w.choose("in one piece", 2, 0) == 1;
        let between = w.choose("all at once", 2, 0) == 1;
        let mut late: Vec<(usize, Vec<u8>)> = vec![];
        while !todo.is_empty() {
            let c = w.choose("next", todo.len(), 0);
            let i = todo.remove(c);
            let ids = sets[i];
            let mut s = serde_json::Map::new();
            for id in ids { s.insert(id.to_string(), json!({"exe": "/px/x", "argv": [id, i.to_string()], "fds": [["stdout", capture("memory", None, true)]]})); }
            let s = J::Object(s);
            if i % 2 == 0 {
                let b = json!({"specs": s}).to_string();
                let h = format!("POST /procs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", b.len());
                let full = [h.as_bytes(), b.as_bytes()].concat();
                let cut = if split { h.len() + b.len() / 2 } else { full.len() };
                let r = w.http_raw("POST /procs", &full[..cut]);
                if split { late.push((r, full[cut..].to_vec())); }
                sent.push((i, s, Some(r)));
            } else { w.req(0, json!({"type": "ProcStartRequest", "specs": s})); sent.push((i, s, None)); }
            if between { w.settle()?; }
        }
        for (r, rest) in late { w.http_more(r, &rest); if between { w.settle()?; } }
        w.settle()?;
        let mut errs = w.ws_new(0).iter().filter(|v| v.json()["type"] == "RequestError").count();
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        let mut pm = vec![];
        for (i, s, r) in &sent {
            let ran: Vec<&str> = sets[*i].iter().copied().filter(|id| w.kids.iter().any(|k| k.exec.as_ref().map(|x| x.argv[0] == id.as_bytes() && x.argv[1] == i.to_string().as_bytes()).unwrap_or(false))).collect();
            if !ran.is_empty() && ran.len() != sets[*i].len() { return Err(format!("of the processes {:?} requested together, only {ran:?} were started", sets[*i])); }
            let ok = match r { Some(r) => w.take(*r)?.status == 200, None => { if ran.is_empty() { if errs == 0 { return Err("no error message for a rejected request".into()); } errs -= 1; false } else { true } } };
            if ok != !ran.is_empty() { return Err(format!("a request was answered as {} but its processes were {}", if ok { "accepted" } else { "rejected" }, if ran.is_empty() { "not started" } else { "started" })); }
            if ok { pm.push(s.clone()); for id in sets[*i] { *got.entry(id.to_string()).or_default() += 1; } }
        }
        if errs != 0 { return Err("an error message for an accepted request".into()); }
        if got.is_empty() || got.values().any(|n| *n != 1) { return Err(format!("processes started: {got:?}")); }
        // None is left out that could have been started.
        for (i, _, _) in &sent { if sets[*i].iter().all(|id| !got.contains_key(*id)) { return Err("a request without conflicts was rejected".into()); } }
        for s in pm { w.expect_procs(&s); }
        w.check_list()
    }));
    // From stdin, or a file: nothing runs, and procstar says so.
    v.push(Scn::new("one defect on the command line", Conf::new(&["--print", "-"]), 0, move |w| {
        let mut defects: Vec<(&str, J)> = rejects().into_iter().filter(|d| !d.1.is_string()).collect();
        defects.push(("JSON", json!("raw")));
        let (what, bad) = defects[w.choose("defect", defects.len(), 0)].clone();
        let at = ["0", "m", "zz"][w.choose("position", 3, 0)];
        let mut s = json!({"a": pspec("a", &[("stdout", capture("memory", None, true)), ("5", json!("pipe-write"))]), "z": {"argv": ["z"], "exe": "/px/z", "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "5"}}]]}});
        if bad == "raw" { w.stdin(b"{\"specs\": {\"a\": {\"argv\": [\"a\"]}, }"); } else { s[at] = bad; w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap()); }
        w.settle()?;
        if !w.kids.is_empty() { return Err(format!("{what}: processes were started")); }
        match w.exited { Some(s) if s & 127 == 0 && s != 0 => {} x => return Err(format!("{what}: procstar ends with {x:?}")) }
        if !w.stdout().is_empty() { return Err(format!("{what}: results are printed")); }
        Ok(())
    }));
    // Texts cut off at each place, or with something after their end.
    let text = "{\"specs\": {\"a\": {\"exe\": \"/px/a\", \"argv\": [\"a\"]}, \"z\": {\"argv\": [\"z\"]}}}";
    for via in ["stdin", "file", "http"] {
        let tails = ["x", "}", "{}", "]", ",", "0", "null", "\u{0}", " {\"specs\": {}}", "\n\n#", "\"", "/**/", text];
        let mut texts: Vec<(String, Vec<u8>)> = (if via == "http" { 1 } else { 0 }..text.len()).map(|n| (format!("cut off after {n} bytes"), text.as_bytes()[..n].to_vec())).collect();
        for t in tails { texts.push((format!("followed by {t:?}"), format!("{text}{t}").into_bytes())); texts.push((format!("followed by newline, {t:?}"), format!("{text}\n{t}").into_bytes())); }
        texts.push(("preceded by a comma".into(), format!(",{text}").into_bytes()));
        texts.push(("in a list".into(), format!("[{text}]").into_bytes()));
        texts.push(("with an ill-formed byte".into(), { let mut t = text.as_bytes().to_vec(); let i = text.find("z").unwrap(); t[i] = 0xff; t }));
        // Rejected in all cases but these.
        for t in ["", " ", "\n", "\r\n\t "] { texts.push(("well-formed".into(), format!("{t}{text}{t}").into_bytes())); }
        if via == "file" {
            for (what, t) in texts { v.push(Scn::new(&format!("texts via file#{what}, {}", t.len()), Conf::new(&["--print", "specs.json"]).file("specs.json", &t), 0, move |w| ill_text(w, "file", &what, &t))); }
        } else {
            let c = if via == "stdin" { Conf::new(&["--print", "-"]) } else { Conf::serve() };
            v.push(Scn::new(&format!("texts via {via}"), c, 0, move |w| { let (what, t) = texts[w.choose("text", texts.len(), 0)].clone(); ill_text(w, via, &what, &t) }));
        }
    }
    v
}
/// A start request's text, malformed unless `what` says so.
fn ill_text(w: &mut World, via: &str, what: &str, t: &[u8]) -> R {
    let good = what == "well-formed";
    if via == "http" {
        w.settle()?;
        let h = format!("POST /procs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", t.len());
        let i = w.http_raw("POST /procs", &[h.as_bytes(), t].concat());
        w.settle()?;
        let r = w.take(i)?;
        if good { if r.status != 200 { return Err(format!("status {} for well-formed specs", r.status)); } }
        else if r.status / 100 != 4 { return Err(format!("{what}: status {}", r.status)); }
    } else {
        if via == "stdin" { w.stdin(t); }
        w.settle()?;
    }
    let ran = w.kids.len();
    if good { if ran != 2 { return Err(format!("{ran} processes of 2 were started")); } return Ok(()); }
    if ran != 0 { return Err(format!("specs {what}: processes were started")); }
    if via == "http" { return w.check_list(); }
    match w.exited { Some(s) if s & 127 == 0 && s != 0 => {} x => return Err(format!("specs {what}: procstar ends with {x:?}")) }
    if !w.stdout().is_empty() { return Err(format!("specs {what}: results are printed")); }
    Ok(())
}
fn fds_of(w: &mut World) -> R<Vec<String>> { baseline(w) }
/// Send a start request and check that it is accepted or rejected.
fn send_start(w: &mut World, via: &str, s: &J, rejected: bool, formed: bool, what: &str) -> R {
    if via == "http" {
        let i = w.http("POST", "/procs", Some(&json!({"specs": s})));
        w.settle()?;
        let r = w.take(i)?;
        let ok = if rejected { r.status / 100 == 4 } else { r.status == 200 };
        if !ok { return Err(format!("{what}: status {} for a request to be {}: {}", r.status, if rejected { "rejected" } else { "accepted" }, String::from_utf8_lossy(&r.body))); }
    } else {
        let m = w.request(0, json!({"type": "ProcStartRequest", "specs": s}))?;
        let n = m.iter().filter(|m| m["type"] == "RequestError").count();
        let ok = if rejected { n == 1 || (!formed && n == 0) } else { n == 0 };
        if !ok { return Err(format!("{what}: {n} error messages for a request to be {}: {m:?}", if rejected { "rejected" } else { "accepted" })); }
        if w.ws.len() != 1 || w.ws[0].state != WsState::Open { return Err(format!("{what}: the connection has broken")); }
    }
    Ok(())
}

//---- P12: processes that cannot be started

fn names_errno(errs: &J, e: i32) -> bool {
    let s = std::io::Error::from_raw_os_error(e).to_string();
    let t = s.split(" (os").next().unwrap().to_string();
    errs.as_array().map(|a| a.iter().any(|x| { let x = x.as_str().unwrap_or(""); x.contains(&t) || x.contains(&format!("os error {e}")) })).unwrap_or(false)
}
fn failed_res(w: &World, r: &J, errno: i32, word: &str) -> R {
    if r["state"] != "error" { return Err(format!("a process that could not be started has state {}", r["state"])); }
    if !names_errno(&r["errors"], errno) { return Err(format!("errors {} do not name the cause, errno {errno}", r["errors"])); }
    if !word.is_empty() && !r["errors"].as_array().unwrap().iter().any(|x| x.as_str().unwrap().contains(word)) { return Err(format!("errors {} do not name the step {word:?}", r["errors"])); }
    let _ = w;
    Ok(())
}

pub fn failures(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let errnos = [libc::ENOENT, libc::EACCES, libc::ENOEXEC, libc::E2BIG, libc::ENOMEM, libc::EISDIR, libc::ENOTDIR, libc::ELOOP, libc::ETXTBSY, libc::ENAMETOOLONG, libc::EPERM, libc::EIO, libc::EINVAL, libc::EMFILE, libc::EAGAIN, libc::EFAULT, libc::ELIBBAD];
    for via in ["http", "print", "output", "agent"] {
        let args: Vec<&str> = match via { "http" => vec!["--serve"], "print" => vec!["--print", "-"], "output" => vec!["--output", "out.json", "-"], _ => AGENT.to_vec() };
        v.push(Scn::new(&format!("execve fails, via {via}"), Conf::new(&args), 0, move |w| {
            let e = errnos[w.choose("errno", errnos.len(), 0)];
            let names = [["a", "b"], ["b", "a"]][w.choose("names", 2, 0)];
            let [bad, good] = names;
            let kind = w.choose("captures", 3, 0);
            let caps = match kind { 0 => vec![], 1 => vec![("stdout", capture("memory", None, true))], _ => vec![("stdout", capture("tempfile", Some("utf-8"), true)), ("stderr", capture("memory", None, false))] };
            w.exec_errno = Some(Rc::new(move |x| if x.argv[0] == bad.as_bytes() { e } else { 0 }));
            let s = json!({bad: pspec(bad, &caps), good: cap1(good)});
            if via == "http" || via == "agent" { w.settle()?; w.start_procs(&s)?; } else { w.expect_procs(&s); w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap()); w.settle()?; }
            if !w.running(good) { return Err("the other process does not run".into()); }
            w.emit(good, 1, 9)?;
            w.settle()?; w.quiescent()?;
            if via == "http" || via == "agent" { w.check_list()?; } else if w.exited.is_some() { return Err("procstar ended while a process was running".into()); }
            let k = w.kid(good).unwrap();
            w.kid_exit(k, 4);
            w.settle()?; w.quiescent()?;
            let d = match via {
                "http" => { w.check_list()?; w.get("/procs")?["procs"].clone() }
                "agent" => {
                    w.check_list()?;
                    // The last that was told about the process.
                    let all: Vec<J> = w.ws[0].got.iter().map(|v| v.json()).collect();
                    let last = all.iter().rev().find(|m| m["type"] == "ProcResult" && m["proc_id"] == bad).ok_or("no message about the process")?;
                    failed_res(w, &last["res"], e, "")?;
                    for m in &all { if m["type"] == "ProcResult" && m["proc_id"] == bad && m["res"]["state"] == "terminated" { return Err("reported as terminated".into()); } }
                    let m = w.request(0, json!({"type": "ProcResultRequest", "proc_id": bad}))?;
                    json!({bad: m[0]["res"]})
                }
                "print" => { w.check_print()?; serde_json::from_slice(&w.stdout()).unwrap() }
                _ => {
                    if w.exited != Some(0) { return Err(format!("procstar has not ended normally: {:?}", w.exited)); }
                    let t = std::fs::read(format!("{}/out.json", w.scratch())).map_err(|e| e.to_string())?;
                    let j: J = serde_json::from_slice(&t).map_err(|e| e.to_string())?;
                    w.check_results(&j)?; j
                }
            };
            failed_res(w, &d[bad], e, "exec")
        }));
    }
    v.push(Scn::new("each call in the child fails", Conf::serve().mask(&[K_CHILD, K_DUP2, K_OPEN, K_CLOSE, K_SETSID, K_EXECVE]), 0, move |w| {
        w.settle()?;
        let specs = [
            json!([["stdin", {"null": {}}], ["stdout", capture("memory", None, true)], ["stderr", capture("tempfile", None, true)], ["9", "pipe-write"], ["10", {"dup": {"fd": 1}}]]),
            json!([["stderr", {"dup": {"fd": 1}}], ["0", "close"], ["5", {"file": {"path": format!("{}/f", w.scratch()), "flags": "ReadWrite"}}], ["1", capture("memory", None, false)]]),
            json!([]),
        ];
        let c = w.choose("spec", 3, 0);
        let at = w.choose("which", 20, 0) as u32;
        let errno = [libc::EIO, libc::EBADF, libc::EMFILE, libc::EINTR][w.choose("errno", if deep { 4 } else { 2 }, 0)];
        let n = Rc::new(Cell::new(0u32)); let hit = Rc::new(Cell::new(0u32));
        let (n2, hit2) = (n.clone(), hit.clone());
        w.hook = Some(Rc::new(move |_, kind, _, child| { if !child { return Ok(0); } n2.set(n2.get() + 1); if n2.get() == at + 1 { hit2.set(kind); Ok(errno) } else { Ok(0) } }));
        let mut s = json!({"a": {"exe": "/px/a", "argv": ["a"], "fds": specs[c]}});
        if c == 0 { s["z"] = json!({"exe": "/px/z", "argv": ["z"], "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "9"}}]]}); }
        let own = w.fds();
        w.start_procs(&s)?;
        w.hook = None;
        w.settle()?; w.quiescent()?;
        let hit = hit.get();
        let d = w.get("/procs")?["procs"].clone();
        let mut failed = 0;
        for (id, _) in s.as_object().unwrap() {
            if w.running(id) {
                if d[id]["state"] != "running" || d[id]["errors"] != json!([]) { return Err(format!("a process that runs is reported as {} with {}", d[id]["state"], d[id]["errors"])); }
                if id == "a" && hit != K_CLOSE { check_table(w, id, &own)?; }
            } else {
                failed += 1;
                failed_res(w, &d[id], errno, if hit == K_SETSID { "s" } else { "" })?;
            }
        }
        let severe = [K_DUP2, K_OPEN, K_SETSID, K_EXECVE].contains(&hit);
        if failed != severe as usize && !(hit == K_CLOSE && failed <= 1) { return Err(format!("{failed} processes failed, though {} failed", KIND_NAMES[hit as usize])); }
        for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, 0); } }
        w.settle()?; w.quiescent()?;
        if hit != K_CLOSE { w.check_list()?; }
        w.delete_all()
    }));
    v.push(Scn::new("several fds fail", Conf::serve(), 0, move |w| {
        w.settle()?;
        let mut f = vec![];
        let dir = format!("{}/dir", w.scratch());
        std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
        let bads = [("7", json!({"dup": {"fd": 77}}), libc::EBADF), ("0", json!({"file": {"path": "/nonexistent/file", "flags": "Read"}}), libc::ENOENT), ("9", json!({"file": {"path": dir, "flags": "ReadWrite"}}), libc::EISDIR), ("stderr", json!({"dup": {"fd": 98}}), libc::EBADF)];
        let mut want = vec![];
        for (i, (n, s, e)) in bads.iter().enumerate() { if w.choose("fails", 2, 0) == 1 { f.push((*n, s.clone())); want.push((*n, *e)); } else if i % 2 == 0 { f.push((*n, capture("memory", None, true))); } }
        f.push(("1", capture("tempfile", None, true)));
        let fds: Vec<J> = f.iter().map(|(n, s)| json!([n, s])).collect();
        let many = w.choose("many", 2, 0) == 1;
        let mut fds = fds;
        if many { for i in 20..(if deep { 3020 } else { 1520 }) { fds.push(json!([i.to_string(), {"dup": {"fd": 99}}])); } }
        w.start_procs(&json!({"a": {"exe": "/px/a", "argv": ["a"], "fds": fds}, "b": cap1("b")}))?;
        w.settle()?; w.quiescent()?;
        if !w.running("b") { return Err("the other process does not run".into()); }
        let d = w.get("/procs")?["procs"]["a"].clone();
        if want.is_empty() && !many { if !w.running("a") { return Err("the process does not run".into()); } return Ok(()); }
        if w.kid("a").is_some() { return Err("the process was executed".into()); }
        for (n, e) in &want {
            let names = [n.to_string(), if *n == "stderr" { "2".into() } else { n.to_string() }];
            let one = json!(d["errors"].as_array().unwrap().iter().filter(|x| x.as_str().unwrap().split(|c: char| !c.is_alphanumeric()).any(|t| names.iter().any(|n| n == t))).collect::<Vec<_>>());
            if !names_errno(&one, *e) { return Err(format!("no error about fd {n}: {}", if many { "...".into() } else { d["errors"].to_string() })); }
        }
        if d["state"] != "error" { return Err(format!("state {}", d["state"])); }
        w.check_list()
    }));
    v.push(Scn::new("long messages", Conf::serve(), 0, move |w| {
        w.settle()?;
        let len = [60_000, 65_400, 65_535, 65_536, 70_000, 200_000, 100, 200, 250, 500, 1000, 2000, 4000, 4090, 4200, 8100, 8300, 16_000, 16_500, 33_000][w.choose("length", 20, 0)];
        let what = w.choose("what", 2, 0);
        let path = format!("{}/{}", if what == 0 { "" } else { "/px.none" }, "x".repeat(len));
        w.exec_errno = Some(Rc::new(|x| if x.argv[0] == b"a" { libc::ENAMETOOLONG } else { 0 }));
        let s = if what == 0 { json!({"exe": path, "argv": ["a"]}) } else { json!({"exe": "/px/a", "argv": ["a"], "fds": [["1", {"file": {"path": path}}]]}) };
        w.start_procs(&json!({"a": s, "b": cap1("b")}))?;
        w.settle()?; w.quiescent()?;
        let d = w.get("/procs")?["procs"].clone();
        if d["a"]["state"] != "error" || d["a"]["errors"].as_array().unwrap().is_empty() { return Err(format!("state {} with {} errors", d["a"]["state"], d["a"]["errors"].as_array().unwrap().len())); }
        if len <= 60_000 {
            let e = d["a"]["errors"].as_array().unwrap();
            let all: usize = e.iter().map(|e| e.as_str().unwrap().len()).sum();
            if e.len() != 1 { return Err(format!("one failure is reported as {} errors, {all} bytes", e.len())); }
            if ![libc::ENAMETOOLONG, libc::ENOENT, libc::EACCES][..1 + 2 * what].iter().any(|x| names_errno(&d["a"]["errors"], *x)) { return Err(format!("an error of {all} bytes does not name the cause: {}", e[0].as_str().unwrap().chars().take(100).collect::<String>())); }
        }
        if !w.running("b") { return Err("the other process does not run".into()); }
        let k = w.kid("b").unwrap(); w.kid_exit(k, 0);
        w.settle()?; w.quiescent()?;
        w.delete_all()
    }));
    for via in ["http", "agent"] {
        v.push(Scn::new(&format!("orders of failure and messages, via {via}"), Conf::new(if via == "http" { &["--serve"] } else { &AGENT }).mask(&[K_WAIT, K_READ]), if deep { 4 } else if via == "http" { 3 } else { 2 }, move |w| {
            w.settle()?;
            w.defer = true;
            w.exec_errno = Some(Rc::new(|x| if x.argv[0] == b"a" { libc::ENOENT } else { 0 }));
            w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
            w.actor(vec![o_proceed(0), o_proceed(0)]);
            w.actor(vec![o_proceed(1), o_proceed(1), o_exit("b", 1)]);
            w.actor(vec![o_get("a"), o_get("a")]);
            w.inject = true;
            w.interleave(1, true, &|w| { w.quiescent()?; w.check_list() })?;
            w.inject = false;
            for k in 0..2 { w.kid_proceed(k); w.kid_proceed(k); }
            w.settle()?; w.quiescent()?;
            if via == "agent" {
                for m in w.ws[0].got.iter().map(|v| v.json()) {
                    if m["type"] == "ProcResult" && m["proc_id"] == "a" {
                        let r = &m["res"];
                        if r["state"] == "terminated" || (!r["status"].is_null() && r["errors"] == json!([])) { return Err(format!("a process that failed is reported as {}, with errors {}", r["state"], r["errors"])); }
                    }
                }
            }
            w.check_list()?;
            let d = w.get("/procs/a")?["procs"]["a"].clone();
            failed_res(w, &d, libc::ENOENT, "exec")
        }));
    }
    v
}

//---- P13: shortage

pub fn shortage(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for via in ["http", "agent"] {
        v.push(Scn::new(&format!("calls fail during a start via {via}"), Conf::new(&AGENT).mask(&[K_PIPE, K_MKSTEMP, K_FORK]), if deep { 3 } else { 2 }, move |w| {
            let base = baseline(w)?;
            w.start_procs(&json!({"old": cap1("old")}))?;
            w.emit("old", 1, 11)?;
            w.settle()?;
            let with = baseline(w)?;
            let s = json!({
                "a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("9", json!("pipe-write"))]),
                "b": pspec("b", &[("0", json!({"pipe-read": {"proc_id": "a", "fd": "9"}})), ("stdout", capture("memory", Some("utf-8"), false))]),
                "c": cap1("c"),
            });
            let errnos = [libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EAGAIN, libc::ENOSPC];
            let e = errnos[w.choose("errno", if deep { 5 } else { 2 }, 0)];
            let hits = Rc::new(Cell::new(0));
            let h2 = hits.clone();
            w.hook = Some(Rc::new(move |w, kind, _, child| {
                if child || ![K_PIPE, K_MKSTEMP, K_FORK].contains(&kind) { return Ok(0); }
                if w.choose("fails", 2, 1) == 1 { h2.set(h2.get() + 1); Ok(e) } else { Ok(0) }
            }));
            w.m.lenient = true;
            let n0 = w.kids.len();
            w.expect_procs(&s);
            // Accepted, with errors in results; or rejected as a whole.
            let ok = if via == "http" {
                let i = w.http("POST", "/procs", Some(&json!({"specs": s})));
                w.settle()?;
                let r = w.take(i)?;
                if r.status != 200 && r.status < 400 { return Err(format!("status {}", r.status)); }
                r.status == 200
            } else { !w.request(0, json!({"type": "ProcStartRequest", "specs": s}))?.iter().any(|m| m["type"] == "RequestError") };
            w.hook = None;
            w.settle()?;
            w.check_reaped()?;
            if !ok && hits.get() == 0 { return Err("the request was rejected".into()); }
            if !ok && w.kids.len() == n0 { for id in ["a", "b", "c"] { w.forget(id); } }
            w.check_list()?;
            let d = w.get("/procs")?["procs"].clone();
            let mut bad = 0;
            for id in ["a", "b", "c"] {
                if !w.m.procs.contains_key(id) { continue; }
                if w.running(id) {
                    if d[id]["state"] != "running" || d[id]["errors"] != json!([]) { return Err(format!("a process that runs is reported as {} with {}", d[id]["state"], d[id]["errors"])); }
                    w.emit(id, 1, 8)?;
                } else {
                    bad += 1;
                    if d[id]["state"] != "error" || !names_errno(&d[id]["errors"], e) { return Err(format!("a process that could not be started has state {}, errors {}", d[id]["state"], d[id]["errors"])); }
                }
            }
            // A pipe between two processes is needed by both.
            if ok && bad > hits.get() * 2 { return Err(format!("{bad} processes failed for {} failures", hits.get())); }
            // A signal to one without a pid goes nowhere.
            for id in ["a", "c"] { if w.m.procs.contains_key(id) && !w.running(id) { let r = w.call("POST", &format!("/procs/{id}/signals/9"), None)?; if r.status / 100 != 4 { return Err(format!("a signal to a process that was not started: status {}", r.status)); } } }
            if !w.badkills.is_empty() { return Err("a signal was sent to something else".into()); }
            w.emit("old", 1, 11)?;
            w.settle()?;
            w.check_list()?;
            // All is as before once they are gone.
            for id in ["a", "b", "c"] { if w.running(id) { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); } }
            w.settle()?; w.quiescent()?;
            for id in ["a", "b", "c"] { if w.m.procs.contains_key(id) { let r = w.call("DELETE", &format!("/procs/{id}"), None)?; if r.status != 200 { return Err(format!("DELETE: status {}", r.status)); } w.forget(id); } }
            w.settle()?;
            same_fds(w, &with, "after failures")?;
            w.start_procs(&s)?;
            for id in ["a", "b", "c"] { if !w.running(id) { return Err("a later start fails".into()); } }
            for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, 0); } }
            w.settle()?; w.quiescent()?;
            w.check_list()?;
            w.delete_all()?;
            same_fds(w, &base, "after all processes were deleted")
        }));
    }
    v.push(Scn::new("at the start", Conf::new(&["--print", "-"]).mask(&[K_PIPE, K_MKSTEMP, K_FORK]), if deep { 3 } else { 2 }, move |w| {
        let s = json!({"a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true))]), "b": cap1("b")});
        w.expect_procs(&s);
        w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap());
        let armed = Rc::new(Cell::new(0));
        let a2 = armed.clone();
        w.hook = Some(Rc::new(move |w, kind, _, child| {
            if child || ![K_PIPE, K_MKSTEMP, K_FORK].contains(&kind) { return Ok(0); }
            // The event loop's own needs come first.
            if w.kids.is_empty() && a2.get() < 0 { return Ok(0); }
            if w.choose("fails", 2, 1) == 1 { a2.set(a2.get() + 1); Ok(libc::EMFILE) } else { Ok(0) }
        }));
        w.m.lenient = true;
        w.settle()?;
        w.hook = None;
        for k in 0..w.kids.len() { if w.alive(k) { w.kid_exit(k, 0); } }
        w.settle()?;
        match w.exited { Some(0) => w.check_print(), Some(s) if s & 127 == 0 && armed.get() > 0 && w.kids.is_empty() => Ok(()), x => Err(format!("procstar ends with {x:?}")) }
    }));
    v.push(Scn::new("connections", Conf::new(&AGENT).mask(&[K_ACCEPT]), if deep { 4 } else { 3 }, move |w| {
        w.settle()?;
        w.start_procs(&json!({"old": cap1("old")}))?;
        w.emit("old", 1, 11)?;
        let e = [libc::EMFILE, libc::ENFILE, libc::ECONNABORTED, libc::ENOBUFS, libc::ENOMEM, libc::EPROTO, libc::EPERM][w.choose("errno", 7, 0)];
        let n = Rc::new(Cell::new(0));
        let n2 = n.clone();
        w.hook = Some(Rc::new(move |w, kind, _, child| { if child || kind != K_ACCEPT || n2.get() > 5 { return Ok(0); } if w.choose("fails", 2, 1) == 1 { n2.set(n2.get() + 1); Ok(e) } else { Ok(0) } }));
        let i = w.http("GET", "/procs", None);
        let j = w.http("GET", "/procs/old", None);
        w.settle()?;
        for _ in 0..8 { w.sleep(1000)?; }
        w.hook = None;
        // Refused connections are dropped or delayed; later ones are served.
        w.check_list()?;
        for x in [i, j] { if w.reqs[x].rsp.is_some() { let r = w.take(x)?; if r.status != 200 { return Err(format!("status {}", r.status)); } } else if n.get() == 0 { return Err("no response".into()); } }
        w.emit("old", 1, 3)?;
        let k = w.kid("old").unwrap();
        w.kid_exit(k, 2);
        w.settle()?; w.quiescent()?;
        w.check_list()?;
        let m = w.request(0, json!({"type": "ProcidListRequest"}))?;
        if m.len() != 1 { return Err("the agent connection does not work".into()); }
        w.delete_all()
    }));
    v
}
