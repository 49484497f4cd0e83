use crate::engine::{Scn, R};
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

fn extras(mut c: Conf, e: &[Extra]) -> Conf { c.extra = e.to_vec(); c }

/// Compare the fds that a process has with those its spec describes.
pub fn check_table(w: &mut World, id: &str, own: &BTreeMap<i32, FdEnt>) -> R {
    let k = w.kid(id).ok_or(format!("process {id} was not executed"))?;
    let have: BTreeMap<i32, FdEnt> = w.kids[k].exec.as_ref().unwrap().fds.iter().filter(|(_, e)| !e.cloexec).map(|(n, e)| (*n, e.clone())).collect();
    let pm = w.m.procs[id].clone();
    let e = |s: String| Err(format!("fds of process {id}: {s}"));
    let a: Vec<i32> = have.keys().copied().collect();
    let b: Vec<i32> = pm.table.keys().copied().collect();
    if a != b { return e(format!("{a:?} are open, expected {b:?}")); }
    for (n, t) in &pm.table {
        let f = &have[n];
        let acc = f.flags & libc::O_ACCMODE;
        let kind = f.mode & libc::S_IFMT;
        match t {
            Tgt::Base(m) => if own.get(m).map(|o| (o.dev, o.ino)) != Some((f.dev, f.ino)) { return e(format!("{n} is not inherited from procstar's {m}")); },
            Tgt::Null(fl) => {
                if kind != libc::S_IFCHR || f.rdev != libc::makedev(1, 3) { return e(format!("{n} is not the null device")); }
                if acc != fl & libc::O_ACCMODE { return e(format!("{n} is null with access {acc}")); }
                if fl & libc::O_APPEND != f.flags & libc::O_APPEND { return e(format!("{n}: append mode")); }
            }
            Tgt::File(p, fl) => {
                let st = std::fs::metadata(p).map_err(|x| format!("file {p}: {x}"))?;
                use std::os::unix::fs::MetadataExt;
                if (st.dev(), st.ino()) != (f.dev, f.ino) { return e(format!("{n} is not file {p}")); }
                if acc != fl & libc::O_ACCMODE { return e(format!("{n} is a file with access {acc}, expected {}", fl & libc::O_ACCMODE)); }
                if fl & libc::O_APPEND != f.flags & libc::O_APPEND { return e(format!("{n}: append mode")); }
            }
            Tgt::Mem(_) | Tgt::PipeW(..) => if kind != libc::S_IFIFO || acc != libc::O_WRONLY { return e(format!("{n} is not a pipe's write end")); },
            Tgt::PipeR(..) => if kind != libc::S_IFIFO || acc != libc::O_RDONLY { return e(format!("{n} is not a pipe's read end")); },
            Tgt::Temp(_) => if kind != libc::S_IFREG || acc == libc::O_RDONLY { return e(format!("{n} is not a file for capture")); },
        }
        if f.flags & libc::O_NONBLOCK != 0 && !matches!(t, Tgt::Base(_)) { return e(format!("{n} is in nonblocking mode")); }
        for (m, u) in &pm.table {
            let same = have[m].dev == f.dev && have[m].ino == f.ino;
            if t == u && !same { return e(format!("{n} and {m} are not the same")); }
            if t != u && same && !matches!((t, u), (Tgt::Base(_), Tgt::Base(_)) | (Tgt::Null(_), Tgt::Null(_)) | (Tgt::File(..), Tgt::File(..))) { return e(format!("{n} and {m} are the same")); }
        }
    }
    Ok(())
}

fn target(w: &World, f: i32) -> String { if f <= 2 && (w.ch.trace.len() % 2 == 0) { fdname(f) } else { f.to_string() } }

fn entry(w: &World, kind: &str, n: usize) -> J {
    match kind {
        "mem" => capture("memory", None, true),
        "memtext" => capture("memory", Some("utf-8"), false),
        "temp" => capture("tempfile", None, true),
        "tempdet" => capture("tempfile", Some("utf-8"), false),
        "null" => json!({"null": {}}),
        "nullw" => json!({"null": {"flags": "Append"}}),
        "file" => json!({"file": {"path": format!("{}/f{n}", w.scratch()), "flags": "ReadWrite"}}),
        "close" | "inherit" => json!(kind),
        d => json!({"dup": {"fd": d[3..].parse::<i32>().unwrap()}}),
    }
}

/// Start `spec` as "a", check its fds, write to all its captures, end it.
fn run_table(w: &mut World, spec: &J, lenient: bool) -> R {
    let own = w.fds();
    let i = w.post(&json!({"a": spec}));
    w.settle()?;
    let r = w.take(i)?;
    if w.m.procs["a"].bad {
        if r.status == 200 {
            let k = w.kids.len() - 1;
            if w.kids[k].execd { return Err(format!("process executed though its fds {} cannot be set up", spec["fds"])); }
            return w.check_list();
        }
        if r.status / 100 != 4 { return Err(format!("status {} for fds that cannot be set up", r.status)); }
        return Ok(());
    }
    if r.status != 200 { return if lenient && r.status / 100 == 4 && w.kids.is_empty() { Ok(()) } else { Err(format!("POST /procs: status {} for {}: {}", r.status, spec["fds"], String::from_utf8_lossy(&r.body))) }; }
    if w.kid("a").is_none() { return w.check_list().and(Err(format!("process with fds {} was not executed", spec["fds"]))); }
    check_table(w, "a", &own)?;
    let t: Vec<i32> = w.m.procs["a"].table.iter().filter(|(_, t)| matches!(t, Tgt::Mem(_) | Tgt::Temp(_))).map(|x| *x.0).collect();
    for n in &t { w.emit("a", *n, 10 + *n as usize % 50)?; }
    w.settle()?;
    w.check_list()?;
    let k = w.kid("a").unwrap();
    w.kid_exit(k, 0);
    w.settle()?;
    w.quiescent()?;
    w.check_list()
}

pub fn tables(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let confs: Vec<(&str, Conf)> = vec![("", Conf::serve()), (" with extra fds", extras(Conf::serve(), &[Extra::File, Extra::PipeW]))];
    for (n, c) in &confs {
        let c = c.clone();
        v.push(Scn::new(&format!("one entry{n}"), c.clone(), 0, |w| {
            w.settle()?;
            let f = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 63, 200][w.choose("fd", 19, 0)];
            let kinds = ["mem", "memtext", "temp", "null", "nullw", "file", "close", "inherit", "dup0", "dup1", "dup2", "dup3", "dup4", "dup5", "dup6", "dup7", "dup9", "dup12", "dup300"];
            let kind = kinds[w.choose("entry", kinds.len(), 0)];
            let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": [[target(w, f), entry(w, kind, 0)]]});
            run_table(w, &spec, false)
        }));
        v.push(Scn::new(&format!("two entries{n}"), c.clone(), 0, move |w| {
            w.settle()?;
            let t: &[i32] = if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] } else { &[0, 1, 3, 5, 6, 8, 9] };
            let f = t[w.choose("fd", t.len(), 0)];
            let g = t[w.choose("fd2", t.len(), 0)];
            if f == g { return Ok(()); }
            let kinds: Vec<String> = ["mem", "temp", "null", "file", "close", "inherit"].iter().map(|s| s.to_string()).chain([format!("dup{f}"), format!("dup{g}")]).collect();
            let k1 = w.choose("entry", kinds.len(), 0);
            let k2 = w.choose("entry2", kinds.len(), 0);
            let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": [[target(w, f), entry(w, &kinds[k1], 0)], [target(w, g), entry(w, &kinds[k2], 1)]]});
            run_table(w, &spec, false)
        }));
    }
    let c = Conf::serve();
    v.push(Scn::new("three entries", c.clone(), 0, move |w| {
        w.settle()?;
        let t: &[i32] = if deep { &[1, 2, 3, 5, 6, 7, 8, 9, 10, 11] } else { &[1, 5, 7, 8, 10] };
        let mut fds = vec![];
        for i in 0..3 {
            let f = t[w.choose("fd", t.len(), 0)];
            if fds.contains(&f) { return Ok(()); }
            fds.push(f);
            let _ = i;
        }
        let ks: Vec<String> = ["mem", "temp", "close"].iter().map(|s| s.to_string()).chain([format!("dup{}", fds[0])]).collect();
        let mut e = vec![];
        for i in 0..3 { let k = ks[w.choose("entry", ks.len(), 0)].clone(); e.push(json!([fds[i].to_string(), entry(w, &k, i)])); }
        let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": e});
        run_table(w, &spec, false)
    }));
    v.push(Scn::new("with other processes running", c.clone(), 0, move |w| {
        w.settle()?;
        w.start_procs(&json!({
            "p": pspec("p", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("9", json!("pipe-write"))]),
            "q": pspec("q", &[("0", json!({"pipe-read": {"proc_id": "p", "fd": "9"}})), ("12", capture("memory", None, false))]),
        }))?;
        let f = [0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18][w.choose("fd", 16, 0)];
        let kinds = ["mem", "temp", "null", "close", "inherit", "dup9", "dup10", "dup11", "dup12"];
        let kind = kinds[w.choose("entry", kinds.len(), 0)];
        let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": [[f.to_string(), entry(w, kind, 0)]]});
        run_table(w, &spec, false)?;
        w.emit("p", 1, 8)?; w.emit("p", 2, 9)?; w.emit("q", 12, 7)?;
        w.settle()?;
        w.check_list()
    }));
    v.push(Scn::new("pipes and captures at colliding numbers", Conf::serve(), 0, move |w| {
        w.settle()?;
        let own = w.fds();
        let pw = [1, 3, 5, 6, 7, 8, 9, 10, 11, 12][w.choose("writer", 10, 0)];
        let pr = [0, 3, 5, 6, 7, 8, 9, 10, 11, 12][w.choose("reader", 10, 0)];
        let cf = [0, 1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13][w.choose("capture", 12, 0)];
        let swap = w.choose("names", 2, 0) == 1;
        let cap = if w.choose("kind", 2, 0) == 0 { capture("memory", None, true) } else { capture("tempfile", None, true) };
        if cf == pw || cf == pr { return Ok(()); }
        let (x, y) = if swap { ("b", "a") } else { ("a", "b") };
        let first = w.choose("entries swapped", 2, 0) == 1;
        let ord = |mut v: Vec<J>| { if first { v.reverse(); } v };
        let s = json!({
            x: {"exe": format!("/px/{x}"), "argv": [x], "fds": ord(vec![json!([cf.to_string(), cap]), json!([pw.to_string(), "pipe-write"])])},
            y: {"exe": format!("/px/{y}"), "argv": [y], "fds": ord(vec![json!([pr.to_string(), {"pipe-read": {"proc_id": x, "fd": pw.to_string()}}]), json!([cf.to_string(), cap])])},
        });
        w.start_procs(&s)?;
        check_table(w, "a", &own)?; check_table(w, "b", &own)?;
        let kx = w.kid(x).unwrap(); let ky = w.kid(y).unwrap();
        w.kid_write(kx, pw, b"through the pipe");
        if w.kid_read(ky, pr, 100) != Ok(b"through the pipe".to_vec()) { return Err("the pipe does not connect the processes".into()); }
        w.emit(x, cf, 12)?; w.emit(y, cf, 14)?;
        w.kid_exit(kx, 0); w.kid_exit(ky, 0);
        w.settle()?;
        w.quiescent()?;
        w.check_list()
    }));
    v.push(Scn::new("files", Conf::serve(), 0, move |w| {
        w.settle()?;
        let flags = ["Default", "Read", "Write", "Create", "Replace", "CreateAppend", "Append", "ReadWrite"][w.choose("flags", 8, 0)];
        let given = w.choose("flags given", 2, 0) == 0;
        if !given && flags != "Default" { return Ok(()); }
        let f = [0, 1, 2, 3, 9][w.choose("fd", 5, 0)];
        let path = format!("{}/file", w.scratch());
        let there = w.choose("exists", 3, 0);
        match there { 0 => {} 1 => { std::fs::write(&path, b"contents").unwrap(); crate::engine::chmod(&path, 0o666); } _ => { std::fs::write(&path, b"secret").unwrap(); crate::engine::chmod(&path, 0); } }
        let mode = [None, Some(0o600), Some(0o755), Some(0)][w.choose("mode", 4, 0)];
        let mut x = json!({"path": path});
        if given { x["flags"] = json!(flags); }
        if let Some(m) = mode { x["mode"] = json!(m); }
        let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": [[f.to_string(), {"file": x}]]});
        // Work out what happens.
        let std = match f { 0 => "Read", 1 | 2 => "Write", _ => "ReadWrite" };
        let eff = if flags == "Default" { std } else { flags };
        let ok = match there { 0 => !matches!(eff, "Read" | "Replace" | "Append"), 1 => eff != "Create", _ => false };
        let own = w.fds();
        w.start_procs(&json!({"a": spec}))?;
        let execd = w.kids[w.kids.len() - 1].execd;
        if execd != ok { return Err(format!("file with flags {flags} {}: process started: {execd}", ["that is not there", "that exists", "that cannot be opened"][there])); }
        let st = std::fs::metadata(&path);
        if !ok {
            w.settle()?; w.quiescent()?;
            if there == 0 && st.is_ok() { return Err("a file was created".into()); }
            if there == 1 && std::fs::read(&path).unwrap() != b"contents" { return Err("the file was changed".into()); }
            return w.check_list();
        }
        check_table(w, "a", &own)?;
        use std::os::unix::fs::PermissionsExt;
        if there == 0 {
            let m = st.unwrap().permissions().mode() & 0o777;
            let um = w.kids[0].exec.as_ref().unwrap().umask;
            let want = mode.unwrap_or(0o666) & !um;
            if m != want { return Err(format!("file created with mode {m:o}, expected {want:o}")); }
            crate::engine::chmod(&path, 0o666);
        }
        let before: &[u8] = if there == 1 { match eff { "Read" | "Append" | "CreateAppend" => b"contents", _ => b"" } } else { b"" };
        if std::fs::read(&path).unwrap() != before { return Err(format!("flags {flags}: the file has {:?} at the start", std::fs::read(&path))); }
        let (_, e) = w.kid_write(0, f, b"new");
        let mut want = before.to_vec();
        if eff == "Read" { if e == 0 { return Err("the file can be written".into()); } }
        else { if e != 0 { return Err(format!("flags {flags}: the file cannot be written")); } want.extend_from_slice(b"new"); }
        if std::fs::read(&path).unwrap() != want { return Err(format!("flags {flags}: contents after writing")); }
        w.kid_exit(0, 0);
        w.settle()?;
        w.check_list()
    }));
    v
}

//---- P07: nothing is left

fn fd_ids(w: &mut World) -> Vec<String> {
    let _ = w.settle();
    w.fds().values().map(|e| if e.mode & libc::S_IFMT == libc::S_IFREG || e.mode & libc::S_IFMT == libc::S_IFCHR { format!("{}:{}", e.dev, e.ino) } else { format!("type {:o}", e.mode & libc::S_IFMT) }).collect::<Vec<_>>()
}
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
pub fn same_fds(w: &mut World, base: &[String], when: &str) -> R {
    let now = sorted(fd_ids(w));
    if now != base {
        return Err(format!("{} fds are open {when}, but {} were before", now.len(), base.len()));
    }
    for t in w.temps.clone() { if std::path::Path::new(&t).exists() { return Err(format!("temporary file {} is left {when}", t.split("capture-").next().unwrap())); } }
    Ok(())
}
/// One request, so that all that procstar sets up once is there.
pub fn baseline(w: &mut World) -> R<Vec<String>> { w.settle()?; w.get("/procs")?; Ok(sorted(fd_ids(w))) }

pub fn leaks(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("every pair of entries", Conf::serve(), 0, move |w| {
        let base = baseline(w)?;
        let kinds = ["mem", "temp", "null", "file", "close", "inherit", "dup0", "memtext", "dup99", "tempdet"];
        let k1 = kinds[w.choose("entry", kinds.len(), 0)];
        let k2 = kinds[w.choose("entry2", kinds.len(), 0)];
        let (f, g) = [(1, 2), (2, 1), (0, 7), (8, 9)][w.choose("fds", 4, 0)];
        let how = w.choose("how it goes", 5, 0);
        if how == 1 { w.exec_errno = Some(std::rc::Rc::new(|_| libc::ENOENT)); }
        let spec = json!({"exe": "/px/a", "argv": ["a"], "fds": [[f.to_string(), entry(w, k1, 0)], [g.to_string(), entry(w, k2, 1)]]});
        w.start_procs(&json!({"a": spec}))?;
        for t in w.temps.clone() { if std::path::Path::new(&t).exists() { return Err("a temporary file has a name".into()); } }
        if let Some(k) = w.kid("a") {
            if w.alive(k) {
                match how { 2 => { w.kid_close(k, f); w.settle()?; w.kid_close(k, g); w.settle()?; } 3 => { w.kid_fork(k); } 4 => { for n in [f, g] { if w.m.procs["a"].stream(n).is_some() { w.emit("a", n, 30000)?; } } } _ => {} }
                w.kid_exit(k, 0);
                w.settle()?;
                if how == 3 { w.check_list()?; w.grand_exit(k, 0); }
            }
        }
        w.settle()?;
        if how != 1 { w.check_list()?; }
        w.delete_all()?;
        same_fds(w, &base, "after the process was deleted")?;
        // Again, a few times.
        for _ in 0..2 {
            w.start_procs(&json!({"a": spec}))?;
            if let Some(k) = w.kid("a") { if w.alive(k) { w.kid_exit(k, 0); w.settle()?; } }
            w.delete_all()?;
        }
        same_fds(w, &base, "after more processes were deleted")
    }));
    v.push(Scn::new("orders of ending and deleting", Conf::serve().mask(&[K_WAIT, K_READ]), if deep { 2 } else { 1 }, move |w| {
        let base = baseline(w)?;
        w.data.insert("n".into(), base.len() as i64);
        w.start_procs(&json!({
            "a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("9", json!("pipe-write"))]),
            "b": pspec("b", &[("0", json!({"pipe-read": {"proc_id": "a", "fd": "9"}})), ("stdout", capture("memory", None, false))]),
        }))?;
        let del = |id: &'static str| op_if(&format!("delete {id}"), move |w: &World| w.m.lo.dead.get(id) == Some(&true), move |w: &mut World| {
            let i = w.http("DELETE", &format!("/procs/{id}"), None);
            w.m.expect.push((i, vec![200]));
            w.forget(id);
            Ok(()) });
        w.actor(vec![o_write("a", 1, 5), o_close("a", 1), o_exit("a", 0), del("a")]);
        w.actor(vec![o_close("b", 0), o_exit("b", 1), del("b")]);
        w.inject = true;
        w.interleave(0, true, &|w| w.quiescent())?;
        w.inject = false;
        w.check_list()?;
        same_fds(w, &base, "after all processes were deleted")
    }));
    v.push(Scn::new("rejected", Conf::serve(), 0, move |w| {
        w.settle()?;
        w.start_procs(&json!({"old": pspec("old", &[("stdout", capture("memory", None, true))])}))?;
        let base = baseline(w)?;
        let good = pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("5", json!("pipe-write"))]);
        let sink = json!({"argv": ["z"], "exe": "/px/z", "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "5"}}]]});
        let bad = rejects();
        let b = bad[w.choose("defect", bad.len(), 0)].1.clone();
        let i = w.http("POST", "/procs", Some(&json!({"specs": {"a": good, "z": sink, "old": if b.is_string() { good.clone() } else { J::Null }, "m": if b.is_string() { sink.clone() } else { b }}})));
        w.settle()?;
        let r = w.take(i)?;
        if r.status / 100 != 4 { return Err(format!("status {} for a request that cannot be carried out", r.status)); }
        same_fds(w, &base, "after a rejected request")
    }));
    v.push(Scn::new("a step fails in the child", Conf::serve().mask(&[K_CHILD, K_DUP2, K_OPEN, K_CLOSE, K_SETSID, K_EXECVE]), 0, move |w| {
        let base = baseline(w)?;
        let at = w.choose("which", if deep { 24 } else { 12 }, 0) as u32;
        let n = std::rc::Rc::new(std::cell::Cell::new(0u32));
        w.hook = Some(std::rc::Rc::new(move |_, _, _, child| { if !child { return Ok(0); } n.set(n.get() + 1); Ok(if n.get() == at + 1 { libc::EIO } else { 0 }) }));
        let specs = json!({
            "a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", capture("tempfile", None, true)), ("9", json!("pipe-write"))]),
            "b": pspec("b", &[("0", json!({"pipe-read": {"proc_id": "a", "fd": "9"}})), ("stdout", json!({"null": {}}))]),
        });
        w.start_procs(&specs)?;
        w.hook = None;
        for id in ["a", "b"] { if w.running(id) { let k = w.kid(id).unwrap(); w.kid_exit(k, 0); } }
        w.settle()?;
        w.quiescent()?;
        w.delete_all()?;
        same_fds(w, &base, "after failed processes were deleted")
    }));
    v.push(Scn::new("connections", Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]), 0, move |w| {
        let base = baseline(w)?;
        let n = w.choose("requests", 4, 0);
        for i in 0..6 {
            match (i + n) % 4 {
                0 => { w.get("/procs")?; }
                1 => { w.call("POST", "/procs", Some(&json!({"bad": 1})))?; }
                2 => { let s = w.http_raw("partial", b"GET /procs HTTP/1.1\r\nHost: x\r\n"); w.settle()?; w.http_drop(s); }
                _ => { w.ws_drop(w.ws.len() - 1); w.sleep(120_000)?; }
            }
            w.settle()?;
        }
        same_fds(w, &base, "after connections have ended")
    }));
    v
}
/// Process specs that make a request be rejected.
pub fn rejects() -> Vec<(&'static str, J)> {
    let cap = capture("memory", None, true);
    vec![
        ("ID in use", json!("old")),
        ("unknown key", json!({"argv": ["m"], "what": 1})),
        ("argv of numbers", json!({"argv": [1]})),
        ("spec not an object", json!(3)),
        ("null spec", J::Null),
        ("duplicate fd", json!({"argv": ["m"], "fds": [["1", cap], ["1", cap]]})),
        ("duplicate fd by name", json!({"argv": ["m"], "fds": [["1", cap], ["stdout", {"null": {}}]]})),
        ("fd name", json!({"argv": ["m"], "fds": [["foo", cap]]})),
        ("negative fd", json!({"argv": ["m"], "fds": [["-1", cap]]})),
        ("empty fd name", json!({"argv": ["m"], "fds": [["", cap]]})),
        ("fd kind", json!({"argv": ["m"], "fds": [["1", {"unknown": {}}]]})),
        ("fd flags", json!({"argv": ["m"], "fds": [["1", {"null": {"flags": "Whatever"}}]]})),
        ("capture mode", json!({"argv": ["m"], "fds": [["1", {"capture": {"mode": "x"}}]]})),
        ("pipe to nowhere", json!({"argv": ["m"], "fds": [["1", "pipe-write"]]})),
        ("pipe from nowhere", json!({"argv": ["m"], "fds": [["0", {"pipe-read": {"proc_id": "nope", "fd": "1"}}]]})),
        ("pipe from another fd", json!({"argv": ["m"], "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "2"}}]]})),
        ("pipe read twice", json!({"argv": ["m"], "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "5"}}]]})),
        ("pipe from a bad fd", json!({"argv": ["m"], "fds": [["0", {"pipe-read": {"proc_id": "a", "fd": "five"}}]]})),
        ("pipe from a process of old", json!({"argv": ["m"], "fds": [["0", {"pipe-read": {"proc_id": "old", "fd": "1"}}]]})),
        ("env inherit", json!({"argv": ["m"], "env": {"inherit": 3}})),
        ("env var", json!({"argv": ["m"], "env": {"vars": {"A": 3}}})),
        ("no argv", json!({"fds": []})),
    ]
}

//---- P08: pipes

/// The processes and pipes of one scenario, and what is in the pipes.
fn pkey(id: &str, fd: i32) -> (String, i32) { (format!("|{id}"), fd) }
fn holders(w: &World, t: &Tgt) -> usize {
    w.m.procs.iter().filter(|(id, pm)| {
        let gone = match w.kid(id) { Some(k) => w.kids[k].phase == Phase::Dead, None => w.data.contains_key(&format!("failed {id}")) };
        !gone && pm.table.iter().any(|(n, x)| x == t && !w.data.contains_key(&format!("closed {id} {n}")))
    }).count()
}
fn o_pw(id: &'static str, fd: i32, n: usize) -> Op {
    op_if(&format!("{id} writes to pipe {fd}"), move |w| w.running(id) && !w.data.contains_key(&format!("closed {id} {fd}")), move |w| {
        let k = w.kid(id).unwrap();
        w.m.seq += 1;
        let p = pat(id, w.m.seq, n);
        let Some(Tgt::PipeW(_, from)) = w.m.procs[id].table.get(&fd).cloned() else { panic!() };
        let rd = Tgt::PipeR(id.to_string(), from);
        let (c, e) = w.kid_write(k, fd, &p);
        if holders(w, &rd) == 0 { if e != libc::EPIPE { return Err(format!("{id} can write to a pipe that has no reader (errno {e})")); } return Ok(()); }
        if e != 0 && e != libc::EAGAIN { return Err(format!("{id} cannot write to its pipe {fd}: errno {e}")); }
        w.m.out.entry(pkey(id, from)).or_default().extend_from_slice(&p[..c]);
        Ok(())
    })
}
fn o_pr(id: &'static str, fd: i32) -> Op {
    op_if(&format!("{id} reads from pipe {fd}"), move |w| w.running(id) && !w.data.contains_key(&format!("closed {id} {fd}")), move |w| {
        let k = w.kid(id).unwrap();
        let Some(Tgt::PipeR(from, ff)) = w.m.procs[id].table.get(&fd).cloned() else { panic!() };
        let wr = Tgt::PipeW(from.clone(), ff);
        let r = w.kid_read(k, fd, 50000);
        let buf = w.m.out.entry(pkey(&from, ff)).or_default().clone();
        match r {
            Ok(d) if d.is_empty() => if !buf.is_empty() || holders(w, &wr) > 0 { return Err(format!("{id} reads end of file though {from} can write")); },
            Ok(d) => { if buf.get(..d.len()) != Some(&d[..]) { return Err(format!("{id} reads {} bytes that {from} did not write", d.len())); } w.m.out.insert(pkey(&from, ff), buf[d.len()..].to_vec()); }
            Err(e) if e == libc::EAGAIN => if !buf.is_empty() || holders(w, &wr) == 0 { return Err(format!("{id} gets {} from the pipe from {from}", if buf.is_empty() { "no end of file" } else { "nothing" })); },
            Err(e) => return Err(format!("{id} cannot read from its pipe: errno {e}")),
        }
        Ok(())
    })
}
fn o_pc(id: &'static str, fd: i32) -> Op {
    op_if(&format!("{id} closes {fd}"), move |w| w.running(id), move |w| { let k = w.kid(id).unwrap(); w.kid_close(k, fd); w.data.insert(format!("closed {id} {fd}"), 1); Ok(()) })
}
fn pr(from: &str, fd: i32) -> J { json!({"pipe-read": {"proc_id": from, "fd": fdname(fd)}}) }

pub fn pipes(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let names: [[&'static str; 3]; 6] = [["a", "b", "c"], ["a", "c", "b"], ["b", "a", "c"], ["b", "c", "a"], ["c", "a", "b"], ["c", "b", "a"]];
    for (i, n) in names.iter().enumerate() {
        if !deep && i % 2 == 1 && i != 3 { continue; }
        let [x, y, u] = *n;
        v.push(Scn::new(&format!("writer {x}, reader {y}, other {u}#"), Conf::serve(), 0, move |w| {
            w.settle()?;
            let (wf, rf) = [(1, 0), (7, 8), (2, 3)][w.choose("fds", if deep { 3 } else { 2 }, 0)];
            let mut s = json!({x: pspec(x, &[(&fdname(wf), json!("pipe-write"))]), y: pspec(y, &[(&fdname(rf), pr(x, wf))])});
            let other = pspec(u, &[("stdout", capture("memory", None, true))]);
            match w.choose("other", 3, 0) {
                0 => { s[u] = other; w.start_procs(&s)?; }
                1 => { w.start_procs(&s)?; w.start_procs(&json!({u: other}))?; }
                _ => { w.start_procs(&json!({u: other}))?; w.start_procs(&s)?; }
            }
            let last = w.choose("writer ends by", 2, 0);
            // What happens to the writer and to the reader, in every order.
            w.actor(vec![o_pw(x, wf, 10), o_pw(x, wf, 90000), if last == 0 { o_pc(x, wf) } else { o_exit(x, 0) }]);
            let rl = w.choose("reader ends by", 2, 0);
            w.actor(vec![o_pr(y, rf), if rl == 0 { o_pc(y, rf) } else { o_raise(y, 9) }]);
            w.interleave(0, false, &|w| w.quiescent())?;
            for _ in 0..4 { if w.running(y) && rl != 0 { let o = o_pr(y, rf); (o.f)(w)?; } }
            w.check_list()
        }));
    }
    v.push(Scn::new("chain of four", Conf::serve(), 0, move |w| {
        w.settle()?;
        let perms: [[&'static str; 4]; 6] = [["a", "b", "c", "d"], ["d", "c", "b", "a"], ["b", "d", "a", "c"], ["c", "a", "d", "b"], ["b", "a", "d", "c"], ["a", "d", "c", "b"]];
        let p = perms[w.choose("names", 6, 0)];
        let mut s = serde_json::Map::new();
        for i in 0..4 {
            let mut f: Vec<(&str, J)> = vec![];
            if i > 0 { f.push(("stdin", pr(p[i - 1], 1))); }
            f.push(("stdout", if i < 3 { json!("pipe-write") } else { capture("memory", None, true) }));
            s.insert(p[i].into(), pspec(p[i], &f));
        }
        w.start_procs(&J::Object(s))?;
        // They end in any order; each reads before.
        let mut left: Vec<usize> = vec![0, 1, 2, 3];
        for i in 0..3 { let o = o_pw(p[i], 1, 20 + i); (o.f)(w)?; }
        while !left.is_empty() {
            let i = left.remove(w.choose("ends", left.len(), 0));
            if i > 0 { let o = o_pr(p[i], 0); (o.f)(w)?; (o.f)(w)?; }
            let k = w.kid(p[i]).unwrap();
            w.kid_exit(k, 0);
            w.settle()?; w.quiescent()?;
            for j in &left { if *j > 0 { let o = o_pr(p[*j], 0); (o.f)(w)?; (o.f)(w)?; } if *j < 3 { let o = o_pw(p[*j], 1, 5); (o.f)(w)?; } }
        }
        w.check_list()
    }));
    v.push(Scn::new("several pipes", Conf::serve(), 0, move |w| {
        w.settle()?;
        // Two writers, one of them with two pipes; a reader of two; a loop; duplicates.
        let z: [&'static str; 3] = [["a", "b", "c"], ["c", "b", "a"], ["b", "c", "a"]][w.choose("names", 3, 0)];
        let [x, y, u] = z;
        let s = json!({
            x: pspec(x, &[("1", json!("pipe-write")), ("2", json!({"dup": {"fd": 1}})), ("5", json!("pipe-write"))]),
            y: pspec(y, &[("0", pr(x, 1)), ("6", pr(u, 1)), ("7", json!({"dup": {"fd": 6}}))]),
            u: pspec(u, &[("1", json!("pipe-write")), ("0", pr(x, 5)), ("8", json!("pipe-write")), ("9", pr(u, 8))]),
        });
        w.start_procs(&s)?;
        w.actor(vec![o_pw(x, 1, 10), o_pc(x, 1), o_pw(x, 5, 7), o_exit(x, 0)]);
        w.actor(vec![o_pr(y, 0), o_pc(y, 6), o_pr(y, 0), o_pr(y, 7)]);
        w.actor(vec![o_pw(u, 1, 9), o_pr(u, 0), o_pw(u, 8, 6), o_pr(u, 9), o_pc(u, 8), o_pr(u, 9)]);
        if !deep {
            let cut = w.choose("cut", 2, 0);
            w.actors[0].ops.remove(if cut == 0 { 2 } else { 1 });
            if cut == 0 { w.actors[2].ops.truncate(3); w.actors[1].ops.truncate(2); } else { w.actors[2].ops.drain(..2); w.actors[1].ops.drain(2..); }
        }
        w.interleave(0, false, &|w| w.quiescent())?;
        if w.running(y) { let o = o_pr(y, 0); (o.f)(w)?; (o.f)(w)?; let o = o_pr(y, 7); (o.f)(w)?; }
        w.check_list()
    }));
    v.push(Scn::new("started slowly", Conf::serve(), if deep { 4 } else { 3 }, move |w| {
        w.settle()?;
        w.defer = true;
        let z: [&'static str; 3] = [["a", "b", "c"], ["c", "b", "a"], ["b", "c", "a"], ["a", "c", "b"]][w.choose("names", 4, 0)];
        let [x, y, u] = z;
        let s = json!({x: pspec(x, &[("stdout", json!("pipe-write"))]), y: pspec(y, &[("stdin", pr(x, 1))]), u: pspec(u, &[("stdout", capture("memory", None, true))])});
        w.start_procs(&s)?;
        for i in 0..3 { w.actor(vec![o_proceed(i), o_proceed(i)]); }
        w.actor(vec![o_pw(x, 1, 10), o_exit(x, 0)]);
        w.interleave(0, false, &|w| w.check_reaped())?;
        for k in 0..3 { w.kid_proceed(k); w.kid_proceed(k); }
        w.settle()?; w.quiescent()?;
        let o = o_pr(y, 0); (o.f)(w)?; (o.f)(w)?;
        if w.running(x) { let o = o_pw(x, 1, 4); (o.f)(w)?; }
        let k = w.kid(y).unwrap(); w.kid_exit(k, 0);
        if w.running(x) { let o = o_pw(x, 1, 4); (o.f)(w)?; }
        w.check_list()
    }));
    v.push(Scn::new("one of them fails to start", Conf::serve(), 0, move |w| {
        w.settle()?;
        let (x, y) = [("a", "b"), ("b", "a")][w.choose("names", 2, 0)];
        let f = if w.choose("which", 2, 0) == 0 { x } else { y };
        let how = w.choose("how", 2, 0);
        if how == 0 { w.exec_errno = Some(std::rc::Rc::new(move |i| if i.argv[0] == f.as_bytes() { libc::EACCES } else { 0 })); }
        let mut sx = vec![("stdout", json!("pipe-write"))];
        let mut sy = vec![("stdin", pr(x, 1))];
        if how == 1 { let bad = json!({"dup": {"fd": 77}}); if f == x { sx.push(("9", bad)); } else { sy.push(("9", bad)); } }
        w.start_procs(&json!({x: pspec(x, &sx), y: pspec(y, &sy)}))?;
        w.data.insert(format!("failed {f}"), 1);
        w.settle()?;
        if f == x { let o = o_pr(y, 0); (o.f)(w)?; } else { let o = o_pw(x, 1, 4); (o.f)(w)?; }
        let k = w.kid(if f == x { y } else { x }).unwrap();
        w.kid_exit(k, 0);
        w.settle()?; w.quiescent()?;
        w.check_list()
    }));
    v
}
