use crate::engine::{Scn, R};
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};

fn agent_serve() -> Conf { Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]) }
const MODES: [(&str, Option<&str>); 4] = [("memory", None), ("memory", Some("utf-8")), ("tempfile", None), ("tempfile", Some("utf-8"))];

/// Output captured, in every way, compared.
fn get_data(w: &mut World, id: &str, fd: i32, text: bool) -> R {
    let full = w.m.out[&(id.to_string(), fd)].clone();
    let r = w.call("GET", &format!("/procs/{id}/output/{}/data", fdname(fd)), None)?;
    if r.status != 200 { return Err(format!("output data: status {}", r.status)); }
    if r.body != full { return Err(format!("output data: {} bytes, but {} were written, or they differ", r.body.len(), full.len())); }
    let want = if text { "text/plain; charset=utf-8" } else { "application/octet-stream" };
    if r.ctype != want { return Err(format!("output data: content type {}", r.ctype)); }
    Ok(())
}

/// Terminated results sent to the connection contain everything.
pub fn check_noti(w: &mut World) -> R {
    if w.ws.is_empty() { return Ok(()); }
    let lo = w.m.lo.clone();
    for m in w.ws_new(0) {
        let j = m.json();
        if j["type"] == "ProcResult" && w.m.procs.contains_key(j["proc_id"].as_str().unwrap_or("")) { w.check_res(j["proc_id"].as_str().unwrap(), &j["res"], &lo)?; }
    }
    Ok(())
}

pub fn capture_all(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    for mode in ["http", "print", "output"] {
        v.push(Scn::new(&format!("sizes and contents via {mode}"), match mode { "http" => agent_serve(), "print" => Conf::new(&["--print", "-"]), _ => Conf::new(&["--output", "out.json", "-"]) }, 0, move |w| {
            let m = w.choose("mode", 4, 0);
            let (cm, ce) = MODES[m];
            // Which fds, and which of them is a dup.
            let shape = w.choose("shape", 4, 0);
            let c = capture(cm, ce, true);
            let fds: Vec<(&str, J)> = match shape {
                0 => vec![("stdout", c)],
                1 => vec![("stdout", c), ("stderr", json!({"dup": {"fd": 1}}))],
                2 => vec![("stdout", c.clone()), ("stderr", c)],
                _ => vec![("stderr", c), ("stdout", json!({"dup": {"fd": 2}})), ("7", capture(if cm == "memory" { "tempfile" } else { "memory" }, ce, true))],
            };
            let spec = json!({"a": pspec("a", &fds)});
            if mode == "http" { w.settle()?; w.start_procs(&spec)?; check_noti(w)?; } else {
                w.stdin(json!({"specs": spec}).to_string().as_bytes());
                w.expect_procs(&spec); w.settle()?;
            }
            let sizes: &[usize] = if deep { &[0, 1, 2, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 200000] } else { &[0, 1, 4096, 65535, 65536, 65537, 200000] };
            let kind = w.choose("content", 5, 0);
            if kind == 0 {
                let n = sizes[w.choose("size", sizes.len(), 0)];
                for chunk in chunks(n) { w.emit("a", 1, chunk)?; w.settle()?; }
                w.emit("a", 2, 3).ok();
                if shape == 3 { w.emit("a", 7, 100)?; }
            } else {
                // Bytes that are no text, and text broken up.
                let b: &[u8] = match kind { 1 => b"\xff\xfe\x00\x80abc\xc3", 2 => "h\u{e9}llo \u{1F600} \0 \u{7f}\r\n".as_bytes(), 3 => b"a\xe2\x82", _ => b"\xed\xa0\x80\xf0\x9f\x98\x80\x1b[0m\"\\\x08" };
                for x in b.chunks(if kind == 2 { 1 } else { 3 }) { w.emit_bytes("a", 1, x)?; w.settle()?; }
            }
            if mode == "http" { w.quiescent()?; w.check_list()?; }
            let k = w.kid("a").unwrap();
            w.kid_exit(k, 0);
            w.settle()?;
            match mode {
                "http" => { w.quiescent()?; w.check_list()?; w.check_one("a")?; check_noti(w)?; let f = [1, 1, 1, 2][shape]; get_data(w, "a", f, ce.is_some())?; if shape == 2 { get_data(w, "a", 2, ce.is_some())?; } Ok(()) }
                "print" => w.check_print(),
                _ => {
                    if w.exited != Some(0) { return Err("procstar has not ended normally".into()); }
                    let t = std::fs::read(format!("{}/out.json", w.scratch())).map_err(|e| format!("no results file: {e}"))?;
                    let j: J = serde_json::from_slice(&t).map_err(|e| format!("results file: {e}"))?;
                    w.check_results(&j)
                }
            }
        }));
    }
    v.push(Scn::new("much output", agent_serve(), 0, move |w| {
        let (cm, ce) = MODES[w.choose("mode", 4, 0)];
        let sizes: &[usize] = if deep { &[1 << 20, (1 << 20) + 1, 2_500_000, 5_000_000, 17_000_000] } else { &[(1 << 20) + 1, 2_500_000] };
        let n = sizes[w.choose("size", sizes.len(), 0)];
        w.settle()?;
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, ce, true)), ("stderr", capture("memory", None, false))])}))?;
        check_noti(w)?;
        for chunk in chunks(n) { w.emit("a", 1, chunk)?; w.settle()?; }
        w.emit("a", 2, 10)?;
        w.settle()?;
        let k = w.kid("a").unwrap();
        w.kid_exit(k, 0);
        w.settle()?; w.quiescent()?;
        w.check_one("a")?; check_noti(w)?;
        get_data(w, "a", 1, ce.is_some())?;
        let m = w.request(0, json!({"type": "ProcFdDataRequest", "proc_id": "a", "fd": "stdout", "start": n - 5, "stop": null}))?;
        if m.len() != 1 || m[0]["start"] != n - 5 || m[0]["stop"] != n { return Err(format!("the end of {n} bytes: {} messages", m.len())); }
        Ok(())
    }));
    // All short sequences of troublesome bytes.
    for mode in ["http", "print"] {
        v.push(Scn::new(&format!("texts via {mode}"), if mode == "http" { agent_serve() } else { Conf::new(&["--print", "-"]) }, 0, move |w| {
            let tok: [&[u8]; 16] = ["\u{feff}".as_bytes(), b"\xff", b"\0", b"\n", b"\r", b" ", b"\t", b"a", "\u{e9}".as_bytes(), "\u{2028}".as_bytes(), b"\xe2", b"\x80", "\u{fffd}".as_bytes(), b"\"", b"\\", b"\x1b"];
            let (cm, ce) = MODES[w.choose("mode", 4, 0)];
            let n = 1 + w.choose("length", if deep { 3 } else { 2 }, 0);
            let text: Vec<u8> = (0..n).flat_map(|_| tok[w.choose("token", 16, 0)].to_vec()).collect();
            let spec = json!({"a": pspec("a", &[("stdout", capture(cm, ce, true))])});
            if mode == "http" { w.settle()?; w.start_procs(&spec)?; check_noti(w)?; } else { w.stdin(json!({"specs": spec}).to_string().as_bytes()); w.expect_procs(&spec); w.settle()?; }
            w.emit_bytes("a", 1, &text)?;
            w.settle()?;
            if mode == "http" { w.quiescent()?; w.check_list()?; }
            let k = w.kid("a").unwrap();
            w.kid_exit(k, 0);
            w.settle()?;
            if mode == "print" { return w.check_print(); }
            w.quiescent()?; w.check_one("a")?; check_noti(w)?;
            get_data(w, "a", 1, ce.is_some())
        }));
    }
    for (i, (cm, ce)) in MODES.iter().enumerate() {
        if !deep && i % 2 == 1 { continue; }
        let (cm, ce) = (*cm, *ce);
        v.push(Scn::new(&format!("writing, asking, ending in any order#{cm}"), agent_serve().mask(&[K_WAIT, K_READ]), if deep { 3 } else { 1 }, move |w| {
            w.settle()?;
            w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, ce, true))]), "b": pspec("b", &[("stdout", capture(cm, ce, true)), ("stderr", json!({"dup": {"fd": 1}}))])}))?;
            w.actor(vec![o_write("a", 1, 10), o_exit("a", 3)]);
            w.actor(vec![o_write("b", 1, 20), o_write("b", 2, 20), o_exit("b", 0)]);
            w.actor(vec![o_get("a")]);
            w.inject = true;
            w.interleave(0, true, &|w| { check_noti(w)?; w.quiescent() })?;
            w.inject = false;
            w.check_list()
        }));
    }
    v.push(Scn::new("two end as procstar looks, printing", Conf::new(&["--print", "-"]).mask(&[K_WAIT, K_READ]), if deep { 4 } else { 3 }, move |w| {
        let spec = json!({"a": pspec("a", &[("stdout", capture("memory", None, true))]), "b": pspec("b", &[("stdout", capture("memory", Some("utf-8"), true))])});
        w.stdin(json!({"specs": spec}).to_string().as_bytes());
        w.expect_procs(&spec);
        w.actor(vec![op_if("a writes and exits", |w| w.running("a"), |w| { w.emit("a", 1, 30)?; let k = w.kid("a").unwrap(); w.kid_exit(k, 1); Ok(()) })]);
        w.actor(vec![op_if("b writes and exits", |w| w.running("b"), |w| { w.emit("b", 1, 70000).ok(); let k = w.kid("b").unwrap(); w.kid_exit(k, 2); Ok(()) })]);
        w.settle()?;
        w.inject = true;
        w.interleave(0, true, &|_| Ok(()))?;
        w.inject = false;
        w.check_print()
    }));
    // The last that a process writes may still be in the pipe as its end is noticed.
    for mode in ["print", "http"] {
        v.push(Scn::new(&format!("last words via {mode}"), if mode == "print" { Conf::new(&["--print", "-"]) } else { agent_serve() }.mask(&[K_WAIT, K_READ]), if deep { 3 } else { 2 }, move |w| {
            let n = [1usize, 2, 3, 4095, 4096, 4097, 65535, 65536][w.choose("size", if deep { 8 } else { 7 }, 0)];
            let before = [0usize, 1, 4096][w.choose("before", 3, 0)];
            let (cm, ce) = MODES[w.choose("mode", MODES.len(), 0)];
            let spec = json!({"a": pspec("a", &[("stdout", capture(cm, ce, true))]), "b": pspec("b", &[])});
            if mode == "print" { w.stdin(json!({"specs": spec}).to_string().as_bytes()); w.expect_procs(&spec); }
            else { w.settle()?; w.start_procs(&spec)?; }
            w.settle()?;
            if mode != "print" { check_noti(w)?; }
            if before > 0 { w.emit("a", 1, before)?; w.settle()?; }
            w.actor(vec![op_if("a writes and exits", |w| w.running("a"), move |w| { w.emit("a", 1, n)?; let k = w.kid("a").unwrap(); w.kid_exit(k, 1); Ok(()) })]);
            w.actor(vec![o_exit("b", 0)]);
            w.inject = true;
            w.interleave(0, true, &move |w| if mode == "print" { Ok(()) } else { check_noti(w)?; w.quiescent() })?;
            w.inject = false;
            w.settle()?;
            if mode == "print" { return w.check_print(); }
            w.quiescent()?; w.check_one("a")?; check_noti(w)
        }));
    }
    v.push(Scn::new("descendants keep writing", agent_serve().mask(&[K_WAIT, K_READ]), if deep { 3 } else { 2 }, move |w| {
        w.settle()?;
        let cm = ["memory", "tempfile"][w.choose("mode", 2, 0)];
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, None, true))])}))?;
        let k = w.kid("a").unwrap();
        w.kid_fork(k);
        let gw = |n: usize| op("descendant writes", move |w: &mut World| {
            let k = w.kid("a").unwrap();
            w.m.seq += 1;
            let p = pat("g", w.m.seq, n);
            let (c, _) = w.grand_write(k, 0, 1, &p);
            w.m.out.get_mut(&("a".to_string(), 1)).unwrap().extend_from_slice(&p[..c]);
            Ok(())
        });
        w.actor(vec![gw(5), gw(3000), op("descendant ends", |w| { let k = w.kid("a").unwrap(); w.grand_exit(k, 0); Ok(()) })]);
        w.actor(vec![o_write("a", 1, 9), o_exit("a", 0)]);
        w.inject = true;
        w.interleave(0, true, &|w| { w.check_reaped()?; w.inject = false; let r = w.check_list(); w.inject = true; r })?;
        w.inject = false;
        w.check_list()
    }));
    v
}
fn chunks(n: usize) -> Vec<usize> { let mut v = vec![]; let mut r = n; while r > 50000 { v.push(50000); r -= 50000; } if r > 0 { v.push(r) } v }

//---- P04: ranges

pub fn ranges(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("every range", agent_serve(), 0, move |w| {
        w.settle()?;
        let (cm, ce) = MODES[w.choose("mode", 4, 0)];
        let att = w.choose("detached", 2, 0) == 0;
        let over = w.choose("terminated", 2, 0) == 1;
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, ce, att))])}))?;
        let len = [10usize, 0, 70000][w.choose("length", if deep { 3 } else { 2 }, 0)];
        for c in chunks(len) { w.emit("a", 1, c)?; w.settle()?; }
        if over { let k = w.kid("a").unwrap(); w.kid_exit(k, 0); w.settle()?; }
        let l = len as i64;
        let pts = if deep { vec![0, 1, 2, 5, l - 1, l, l + 1, 100000, 1 << 32, i64::MAX, -1, -5, i64::MIN] } else { vec![0, 1, l - 1, l, l + 1, 1 << 40, i64::MAX, -1, i64::MIN] };
        let start = pts[w.choose("start", pts.len(), 0)];
        let s = w.choose("stop", pts.len() + 1, 0);
        let stop = if s == 0 { None } else { Some(pts[s - 1]) };
        for round in 0..2 {
            let full = w.m.out[&("a".to_string(), 1)].clone();
            let m = w.request(0, json!({"type": "ProcFdDataRequest", "proc_id": "a", "fd": "stdout", "start": start, "stop": stop}))?;
            if m.len() != 1 { return Err(format!("{} messages in response to a data request", m.len())); }
            check_range(&m[0], &full, start, stop, ce.is_some())?;
            // The capture is not disturbed.
            if !over && round == 0 { w.emit("a", 1, 7)?; w.settle()?; }
            w.quiescent()?;
            w.check_list()?;
        }
        get_data(w, "a", 1, ce.is_some())?;
        if !over { let k = w.kid("a").unwrap(); w.kid_exit(k, 0); w.settle()?; }
        w.check_list()
    }));
    v.push(Scn::new("what has no data", agent_serve(), 0, move |w| {
        w.settle()?;
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture("memory", None, true)), ("stderr", json!({"null": {}})), ("5", json!({"dup": {"fd": 1}}))])}))?;
        w.emit("a", 1, 10)?;
        w.settle()?;
        let (id, fd, want) = [("a", "stdin", "RequestError"), ("a", "stderr", "RequestError"), ("a", "5", "RequestError"), ("a", "9", "RequestError"), ("a", "-1", "RequestError"), ("a", "foo", "RequestError"), ("a", "", "RequestError"),
            ("a", "1", "ProcFdData"), ("b", "stdout", "ProcUnknown"), ("a", "99999999999", "RequestError")][w.choose("which", 10, 0)];
        let m = w.request(0, json!({"type": "ProcFdDataRequest", "proc_id": id, "fd": fd, "start": 0, "stop": null}))?;
        if m.len() != 1 || m[0]["type"] != want { return Err(format!("data request for {id} {fd:?}: {m:?}, expected {want}")); }
        if !fd.is_empty() {
            let r = w.call("GET", &format!("/procs/{id}/output/{fd}/data"), None)?;
            let ok = match want { "ProcUnknown" => r.status == 404, "ProcFdData" => r.status == 200 && r.body.len() == 10, _ => (r.status == 200 && r.body.is_empty()) || r.status / 100 == 4 };
            if !ok { return Err(format!("output data of {id} {fd:?}: status {}", r.status)); }
        }
        w.check_list()
    }));
    v.push(Scn::new("ranges while output goes on", agent_serve().mask(&[K_READ]), if deep { 3 } else { 1 }, move |w| {
        w.settle()?;
        let (cm, ce) = MODES[w.choose("mode", 4, 0)];
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, ce, false))])}))?;
        let rq = |start: i64, stop: Option<i64>| op("ask for a range", move |w: &mut World| {
            w.data.insert("lo".into(), w.m.lo.out.get(&("a".to_string(), 1)).map(|v| v.len()).unwrap_or(0) as i64);
            w.req(0, json!({"type": "ProcFdDataRequest", "proc_id": "a", "fd": "stdout", "start": start, "stop": stop})); Ok(()) });
        w.actor(vec![o_write("a", 1, 10), o_write("a", 1, 10), o_write("a", 1, 10), o_exit("a", 0)]);
        w.actor(vec![rq(0, None), rq(5, Some(15)), rq(15, None)]);
        w.inject = true;
        w.interleave(0, true, &|w| {
            let full = w.m.out[&("a".to_string(), 1)].clone();
            for m in w.ws_new(0) {
                let j = m.json();
                if j["type"] != "ProcFdData" { continue; }
                let (s, e) = (j["start"].as_i64().unwrap(), j["stop"].as_i64().unwrap());
                let d = m.get("data").and_then(|d| d.bytes()).ok_or("no data")?;
                if (e - s) as usize != d.len() { return Err(format!("range {s} to {e} with {} bytes", d.len())); }
                if !d.is_empty() && full.get(s as usize..e as usize) != Some(d) { return Err("data in range is wrong".into()); }
                let want = match s { 5 => 15, _ => i64::MAX }.min(w.data["lo"]);
                if s < want && e < want { return Err(format!("range from {s} ends at {e}, though {} bytes were captured", w.data["lo"])); }
            }
            w.inject = false; let r = w.quiescent().and_then(|_| w.check_list()); w.inject = true; r
        })?;
        w.inject = false;
        w.check_list()
    }));
    v
}
fn check_range(m: &J, full: &[u8], start: i64, stop: Option<i64>, text: bool) -> R {
    let len = full.len() as i64;
    let e = |s: String| Err(format!("range {start} to {stop:?} of {len}: {s}"));
    let good = start >= 0 && start <= len && stop.map(|s| s >= start).unwrap_or(true);
    if m["type"] == "RequestError" { return if good { e(format!("error {}", m["err"])) } else { Ok(()) }; }
    if m["type"] != "ProcFdData" { return e(format!("response {}", m["type"])); }
    let d: Vec<u8> = m["data"]["$b"].as_array().ok_or("data is not bytes")?.iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let (s, t) = (m["start"].as_i64().unwrap(), m["stop"].as_i64().unwrap());
    if s < 0 || t - s != d.len() as i64 { return e(format!("said to be {s} to {t}, with {} bytes", d.len())); }
    if !d.is_empty() && full.get(s as usize..t as usize) != Some(&d[..]) { return e("wrong data".into()); }
    if good && (s != start || t != stop.unwrap_or(len).min(len)) { return e(format!("got {s} to {t}")); }
    if m["encoding"] != if text { json!("utf-8") } else { J::Null } { return e(format!("encoding {}", m["encoding"])); }
    if m["proc_id"] != "a" || m["fd"] != "stdout" { return e("labelled as another's".into()); }
    Ok(())
}

//---- P05: detached output

pub fn detached(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("detached, attached, together", agent_serve().mask(&[K_READ, K_WAIT]), if deep { 3 } else { 1 }, move |w| {
        w.settle()?;
        let (cm, ce) = MODES[w.choose("mode", 4, 0)];
        w.start_procs(&json!({"a": pspec("a", &[("stdout", capture(cm, ce, false)), ("stderr", capture("memory", None, true)), ("3", json!({"dup": {"fd": 1}}))])}))?;
        w.actor(vec![o_write("a", 1, 10), o_write("a", 3, 5), o_exit("a", 0)]);
        w.actor(vec![o_write("a", 2, 6), o_get("a")]);
        w.inject = true;
        w.interleave(0, true, &|w| {
            for m in &w.ws[0].got { if m.s("type") == "ProcResult" && m.json()["res"]["fds"]["stdout"]["type"] != "detached" { return Err("detached output attached to a notification".into()); } }
            check_noti(w)?; w.quiescent()
        })?;
        w.inject = false;
        w.check_list()?;
        get_data(w, "a", 1, ce.is_some())?;
        get_data(w, "a", 2, false)
    }));
    v.push(Scn::new("sizes", Conf::new(&["--print", "-"]), 0, move |w| {
        let (cm, ce) = MODES[w.choose("mode", 4, 0)];
        let both = w.choose("both", 2, 0) == 1;
        let mut f = vec![("stdout", capture(cm, ce, false))];
        if both { f.push(("stderr", capture("tempfile", Some("utf-8"), true))); }
        let spec = json!({"a": pspec("a", &f)});
        w.stdin(json!({"specs": spec}).to_string().as_bytes());
        w.expect_procs(&spec);
        w.settle()?;
        let n = [0, 1, 65536, 65537, 150000][w.choose("size", 5, 0)];
        for c in chunks(n) { w.emit("a", 1, c)?; w.settle()?; if both { w.emit("a", 2, 3)?; } }
        if w.choose("invalid text", 2, 0) == 1 { w.emit_bytes("a", 1, b"\xff\xc0")?; }
        let k = w.kid("a").unwrap();
        w.kid_exit(k, 0);
        w.settle()?;
        w.check_print()
    }));
    v
}
