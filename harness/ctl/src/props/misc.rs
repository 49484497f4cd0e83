//! Statistics, times, HTTP, authentication.
use crate::engine::{Scn, R};
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::rc::Rc;

const S: i64 = 1_000_000_000;
fn cap1(id: &str) -> J { pspec(id, &[("stdout", capture("memory", None, true))]) }

//---- P27: statistics

/// What the kernel's files say.
#[derive(Clone)]
struct Files { stat: Result<Vec<u8>, i32>, statm: Result<Vec<u8>, i32> }
type Cell = Rc<RefCell<Option<Files>>>;

/// Fields 3 to 52 of a stat file.
fn fields(pid: i32) -> Vec<String> {
    format!("S 77 {pid} {pid} 34816 -1 4194560 1001 1002 1003 1004 1105 1206 1307 1408 20 5 3 0 123456 2920448 366 18446744073709551615 94721192349696 94721192367281 140722790844016 0 0 0 65536 4097 514 1 0 0 17 5 0 0 99 250 375 94721192381072 94721192382568 94722131628032 140722790852493 140722790852513 140722790852513 140722790854635 256")
        .split(' ').map(|s| s.to_string()).collect()
}
fn stat_text(pid: i32, comm: &[u8], f: &[String]) -> Vec<u8> { [format!("{pid} (").as_bytes(), comm, b") ", f.join(" ").as_bytes(), b"\n"].concat() }
const STATM: [u64; 7] = [713, 366, 342, 5, 0, 112, 0];
const UPTIME: &str = "5000.25 12345.67\n";

/// The statistics that field `i` (numbered as in the manual) is.
fn expect(i: usize, s: &str, boot: i64) -> Option<(&'static str, J)> {
    let int = |s: &str| -> J { s.parse::<i64>().map(|x| json!(x)).or(s.parse::<u64>().map(|x| json!(x))).unwrap() };
    let secs = |s: &str| json!(s.parse::<u64>().unwrap() as f64 / 100.);
    let sigs = |s: &str| { let m: u64 = s.parse().unwrap(); json!((1..32).filter(|n| m & (1 << (n - 1)) != 0).map(|n| ABBREV[n]).collect::<Vec<_>>()) };
    Some(match i {
        3 => ("state", json!(s)), 4 => ("ppid", int(s)), 5 => ("pgrp", int(s)), 6 => ("session", int(s)),
        7 => { let d = s.parse::<i32>().unwrap() as u32; ("tty_nr", json!([(d >> 8) & 0xfff, (d & 0xff) | ((d >> 12) & 0xfff00)])) }
        8 => ("tpgid", if s == "-1" { J::Null } else { int(s) }),
        9 => ("flags", int(s)), 10 => ("minflt", int(s)), 11 => ("cminflt", int(s)), 12 => ("majflt", int(s)), 13 => ("cmajflt", int(s)),
        14 => ("utime", secs(s)), 15 => ("stime", secs(s)), 16 => ("cutime", secs(s)), 17 => ("cstime", secs(s)),
        18 => ("priority", int(s)), 19 => ("nice", int(s)), 20 => ("num_threads", int(s)),
        22 => ("starttime", json!(boot + s.parse::<i64>().unwrap() * (S / 100))),
        23 => ("vsize", int(s)), 24 => ("rss", json!(s.parse::<i64>().unwrap() * 4096)), 25 => ("rsslim", int(s)),
        31 => ("signal", sigs(s)), 32 => ("blocked", sigs(s)), 33 => ("sigignore", sigs(s)), 34 => ("sigcatch", sigs(s)),
        35 => ("wchan", int(s)),
        38 => { let n: usize = s.parse().unwrap_or(0); ("exit_signal", if n > 0 && n < 32 { json!(ABBREV[n]) } else { J::Null }) }
        39 => ("processor", int(s)), 40 => ("rt_priority", int(s)), 41 => ("policy", int(s)),
        42 => ("delayacct_blkio_ticks", secs(s)), 43 => ("guest_time", secs(s)), 44 => ("cguest_time", secs(s)),
        52 => ("exit_code", int(s)),
        _ => return None,
    })
}
fn enc_dev(maj: u32, min: u32) -> String { (((min & 0xff) | (maj << 8) | ((min & !0xff) << 12)) as i32).to_string() }
fn values(i: usize, deep: bool) -> Vec<String> {
    let v: Vec<&str> = match i {
        3 => vec!["R", "S", "D", "Z", "T", "t", "X", "I"],
        4 | 5 | 6 | 8 | 20 => vec!["0", "1", "4194304", "2147483647"],
        7 => return [(0, 0), (136, 5), (4, 64), (136, 255), (136, 256), (204, 64), (136, 4095), (143, 65535), (136, 65536), (136, 1048575), (256, 1), (4095, 524287)].iter().map(|x| enc_dev(x.0, x.1)).collect(),
        9 | 40 | 41 => vec!["0", "1", "2147483648", "4294967295"],
        10..=13 | 23 | 25 | 35 => vec!["0", "1", "4294967296", "9223372036854775808", "18446744073709551615"],
        14..=17 | 42 | 43 | 44 => vec!["0", "1", "99", "100", "12345678901"],
        18 => vec!["-100", "-2", "0", "39", "139"], 19 => vec!["-20", "-1", "0", "19"],
        21 => vec!["0", "1"], 22 => vec!["0", "1", "500024", "100000000000"],
        24 => vec!["0", "1", "1099511627776"],
        26..=30 | 36 | 37 | 45..=51 => vec!["0", "1", "18446744073709551615"],
        31..=34 => { let mut v: Vec<String> = ["0", "2147483647", "1431655765"].iter().map(|s| s.to_string()).collect(); for b in 0..31 { if deep || (b + i) % 4 == 0 || b == 30 || b == 0 { v.push((1u32 << b).to_string()); } } return v; }
        38 => vec!["0", "17", "-1", "1", "31", "34", "64"],
        39 => vec!["0", "1", "4095"],
        52 => vec!["0", "9", "139", "65280"],
        _ => vec!["0"],
    };
    v.iter().map(|s| s.to_string()).collect()
}
fn statm_json(v: &[u64]) -> J { json!({"size": v[0] * 4096, "resident": v[1] * 4096, "shared": v[2] * 4096, "text": v[3] * 4096, "data": v[5] * 4096}) }
/// Compare reported statistics with those expected; `None` if they are to be absent.
fn same_stat(got: &J, pid: i32, comm: &[&str], f: Option<&[String]>, boot: i64) -> R {
    let Some(f) = f else { return if got.is_null() { Ok(()) } else { Err(format!("statistics {got}, though there are none to be had")) } };
    if got.is_null() { return Err("no statistics".into()); }
    if got["pid"] != pid { return Err(format!("statistics say pid {}, not {pid}", got["pid"])); }
    if !comm.iter().any(|c| got["comm"] == *c) { return Err(format!("command name {}, not one of {comm:?}", got["comm"])); }
    for (k, s) in f.iter().enumerate() {
        if s == "*" { continue; }
        let Some((n, want)) = expect(k + 3, s, boot) else { continue };
        let g = &got[n];
        let ok = match n {
            "starttime" => g.as_str().and_then(parse_time).map(|t| (t - want.as_i64().unwrap()).abs() < 2_000_000).unwrap_or(false),
            "utime" | "stime" | "cutime" | "cstime" | "delayacct_blkio_ticks" | "guest_time" | "cguest_time" => g.is_f64() && (g.as_f64().unwrap() - want.as_f64().unwrap()).abs() <= 1e-6 * want.as_f64().unwrap().max(1.),
            "signal" | "blocked" | "sigignore" | "sigcatch" => { let g = json!(g.as_array().cloned().unwrap_or_default().iter().map(|x| if x == "???" { json!("SIGSTKFLT") } else { x.clone() }).collect::<Vec<_>>()); g == want }
            _ => *g == want,
        };
        if !ok { return Err(format!("field {} is {s}, but {n} {g}, expected {want}", k + 3)); }
    }
    Ok(())
}

fn serve_files(w: &mut World) -> Cell {
    let c: Cell = Rc::new(RefCell::new(None));
    let c2 = c.clone();
    w.procfile = Some(Rc::new(move |_, p| {
        if p == "/proc/uptime" { return (-1, UPTIME.into()); }
        let c = c2.borrow();
        let Some(f) = &*c else { return (0, vec![]) };
        let x = if p.ends_with("/stat") { &f.stat } else if p.ends_with("/statm") { &f.statm } else { return (0, vec![]) };
        match x { Ok(d) => (-1, d.clone()), Err(e) => (*e, vec![]) }
    }));
    c
}
fn statm_bytes() -> Vec<u8> { format!("{}\n", STATM.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).into_bytes() }

/// Start a process, let the files say something, and look at what is reported
/// of it while it runs, once it has ended, and when its pid is another's.
fn look(w: &mut World, via: &str, make: &dyn Fn(i32, &mut World) -> (Files, Vec<String>, Option<Vec<String>>, Option<J>)) -> R {
    let c = serve_files(w);
    w.settle()?;
    w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
    let k = w.kid("a").unwrap();
    let pid = w.kids[k].pid;
    let boot = WALL0 - 5_000_250_000_000;
    w.emit("a", 1, 10)?;
    w.settle()?;
    let (files, comm, stat, statm) = make(pid, w);
    let comm: Vec<&str> = comm.iter().map(|s| s.as_str()).collect();
    // While it runs.  Only the process asked for is in question.
    *c.borrow_mut() = Some(files);
    let ask = |w: &mut World| -> R<J> {
        if via == "http" { return Ok(w.get("/procs/a")?["procs"]["a"].clone()); }
        let m = w.request(0, json!({"type": "ProcResultRequest", "proc_id": "a"}))?;
        m.iter().find(|m| m["type"] == "ProcResult").map(|m| m["res"].clone()).ok_or_else(|| format!("no result: {m:?}"))
    };
    let r = ask(w)?;
    same_stat(&r["proc_stat"], pid, &comm, stat.as_deref(), boot).map_err(|e| format!("running: {e}"))?;
    if r["proc_statm"] != statm.clone().unwrap_or(J::Null) { return Err(format!("memory statistics {}, expected {statm:?}", r["proc_statm"])); }
    if r["state"] != "running" || r["fds"]["stdout"]["data"].is_null() { return Err(format!("result {r}")); }
    // Once it has ended.
    w.kid_exit(k, 3);
    w.settle()?;
    let r = ask(w)?;
    if r["state"] != "terminated" || r["status"]["exit_code"] != 3 { return Err(format!("after its end: {} {}", r["state"], r["status"])); }
    same_stat(&r["proc_stat"], pid, &comm, stat.as_deref(), boot).map_err(|e| format!("ended: {e}"))?;
    if !r["proc_statm"].is_null() { return Err("memory statistics of a process that has ended".into()); }
    // Its pid is used by another.
    let mut f = fields(pid); f[7] = "424242".into();
    *c.borrow_mut() = Some(Files { stat: Ok(stat_text(pid, b"another", &f)), statm: Ok(statm_bytes()) });
    let r = ask(w)?;
    same_stat(&r["proc_stat"], pid, &comm, stat.as_deref(), boot).map_err(|e| format!("after its end, with another process under its pid: {e}"))?;
    if !r["proc_statm"].is_null() { return Err("memory statistics of another process".into()); }
    // All else is as ever.
    *c.borrow_mut() = None;
    w.forget("a");
    let r = w.call("DELETE", "/procs/a", None)?;
    if r.status != 200 { return Err(format!("deletion: status {}", r.status)); }
    w.quiescent()?;
    w.check_list()
}

pub fn statistics(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let conf = || Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]).mask(&[K_PROC]);
    for via in ["http", "agent"] {
        for g in 0..5 {
            v.push(Scn::new(&format!("field values via {via}#{}", g + 1), conf(), 0, move |w| {
                look(w, via, &|pid, w| {
                    let all: Vec<(usize, String)> = (3..53).filter(|i| i % 5 == g).flat_map(|i| values(i, deep).into_iter().map(move |s| (i, s))).collect();
                    let (i, s) = all[w.choose("field", all.len(), 0)].clone();
                    let mut f = fields(pid);
                    f[i - 3] = s;
                    (Files { stat: Ok(stat_text(pid, b"cmd", &f)), statm: Ok(statm_bytes()) }, vec!["cmd".into()], Some(f), Some(statm_json(&STATM)))
                })
            }));
        }
        v.push(Scn::new(&format!("memory values via {via}"), conf(), 0, move |w| {
            look(w, via, &|pid, w| {
                let i = w.choose("field", 7, 0);
                let x = [0u64, 1, 4294967296, 1 << 51][w.choose("value", 4, 0)];
                let mut m = STATM;
                m[i] = x;
                let t = format!("{}\n", m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                let f = fields(pid);
                (Files { stat: Ok(stat_text(pid, b"cmd", &f)), statm: Ok(t.into()) }, vec!["cmd".into()], Some(f), Some(statm_json(&m)))
            })
        }));
        v.push(Scn::new(&format!("ill-formed files via {via}"), conf(), 0, move |w| {
            look(w, via, &|pid, w| {
                let mut f = fields(pid);
                let good = stat_text(pid, b"cmd", &f);
                let sp: Vec<usize> = good.iter().enumerate().filter(|x| *x.1 == b' ').map(|x| x.0).collect();
                let mut bad: Vec<Vec<u8>> = vec![b"".to_vec(), b"\n".to_vec(), b" ".to_vec(), b"12".to_vec(), b"12 ".to_vec(), b"12 (cmd".to_vec(), b"12 (cmd)".to_vec(), b"12 cmd) S".to_vec(), b")(".to_vec(), b"( )".to_vec(), vec![0; 100], vec![0xff; 300], "\u{20ac}".repeat(20).into()];
                for p in &sp { bad.push(good[..*p].to_vec()); if deep { bad.push(good[..*p + 1].to_vec()); } }
                for i in 4..53 {
                    if expect(i, "1", 0).is_none() { continue; }
                    for s in if deep { vec!["x", "", "-", "99999999999999999999999", "0x1", "1.5", "\u{fc}"] } else { vec!["x", "", "99999999999999999999999"] } { let o = std::mem::replace(&mut f[i - 3], s.into()); bad.push(stat_text(pid, b"cmd", &f)); f[i - 3] = o; }
                }
                let c = w.choose("contents", bad.len() + 24, 0);
                let mut files = Files { stat: Ok(good), statm: Ok(statm_bytes()) };
                if c < bad.len() { files.stat = Ok(bad[c].clone()); return (files, vec![], None, Some(statm_json(&STATM))); }
                let m: [&[u8]; 24] = [b"", b"\n", b" ", b"1", b"1 2 3 4 5 6", b"1 2 3 4 5", b"1 2 3 4", b"1 2 3", b"1 2", b"x 2 3 4 5 6 7", b"1 x 3 4 5 6 7", b"1 2 x 4 5 6 7", b"1 2 3 x 5 6 7", b"1 2 3 4 5 x 7", b"-1 2 3 4 5 6 7",
                    b"18446744073709551615 2 3 4 5 6 7", b"1 18446744073709551615 3 4 5 6 7", b"1 2 3 4 5 4503599627370496000 7", b"99999999999999999999999 2 3 4 5 6 7", b"\xff\xfe", b"\0\0\0", b"1  3 4 5 6 7", b"1\t2\t3\t4\t5\t6\t7", b"1,2,3,4,5,6,7"];
                files.statm = Ok(m[c - bad.len()].to_vec());
                (files, vec!["cmd".into()], Some(f), None)
            })
        }));
        v.push(Scn::new(&format!("files that cannot be read via {via}"), conf(), 0, move |w| {
            look(w, via, &|pid, w| {
                let f = fields(pid);
                let e = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ESRCH, libc::EIO, libc::ENOMEM][w.choose("error", 6, 0)];
                let which = w.choose("file", 3, 0);
                let files = Files { stat: if which != 1 { Err(e) } else { Ok(stat_text(pid, b"cmd", &f)) }, statm: if which != 0 { Err(e) } else { Ok(statm_bytes()) } };
                (files, vec!["cmd".into()], if which == 1 { Some(f) } else { None }, if which == 0 { Some(statm_json(&STATM)) } else { None })
            })
        }));
        let names: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = [") R 1 2 3", "a) b (c", "(", ")", "((", "))", ")(", "() ()", " ", "  x  ", " lead", "trail ", "a b", "x) S 1 1 1", "\u{fc}\u{4e2d}", "\u{1f600}", "0", "-1", "%s%n", "\t", "tab\tx", "123456789012345", "\"q\"", "<&>", "\u{7f}"].iter().map(|s| s.as_bytes().to_vec()).collect();
            v.extend([&b"\xff"[..], b"caf\xe9", b"\xe4\xb8", b"a\xc3", b"\x80) R", b"\\", b"a\nb", b"\n"].iter().map(|b| b.to_vec()));
            if deep { for b in 1..=255u8 { v.push(vec![b]); v.push(vec![b, b')', b' ', b]); } }
            v
        };
        let n2 = names.clone();
        v.push(Scn::new(&format!("command names via {via}"), conf(), 0, move |w| {
            look(w, via, &|pid, w| {
                let n = &n2[w.choose("name", n2.len(), 0)];
                let f = fields(pid);
                (Files { stat: Ok(stat_text(pid, n, &f)), statm: Ok(statm_bytes()) }, vec![String::from_utf8_lossy(n).to_string()], Some(f), Some(statm_json(&STATM)))
            })
        }));
        // With the kernel's own files.
        v.push(Scn::new(&format!("the kernel's files via {via}"), conf(), 0, move |w| {
            let n = &names[w.choose("name", names.len(), 0)];
            w.comm = n.clone();
            w.settle()?;
            w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
            let t = String::from_utf8_lossy(n).to_string();
            let esc = String::from_utf8_lossy(&n.iter().flat_map(|b| match b { b'\n' => b"\\n".to_vec(), b'\\' => b"\\\\".to_vec(), b => vec![*b] }).collect::<Vec<u8>>()).to_string();
            for round in 0..2 {
                for id in ["a", "b"] {
                    let k = w.kid(id).unwrap();
                    let pid = w.kids[k].pid;
                    if round == 0 {
                        let raw = std::fs::read(format!("/proc/{pid}/stat")).map_err(|e| e.to_string())?;
                        let p = raw.iter().rposition(|b| *b == b')').unwrap();
                        let mut f: Vec<String> = String::from_utf8_lossy(&raw[p + 2..]).trim().split(' ').map(|s| s.to_string()).collect();
                        let m: Vec<u64> = std::fs::read_to_string(format!("/proc/{pid}/statm")).unwrap().trim().split(' ').map(|s| s.parse().unwrap()).collect();
                        let r = if via == "http" { w.get(&format!("/procs/{id}"))?["procs"][id].clone() } else {
                            let m = w.request(0, json!({"type": "ProcResultRequest", "proc_id": id}))?;
                            m.iter().find(|m| m["type"] == "ProcResult").map(|m| m["res"].clone()).ok_or("no result")?
                        };
                        let boot = r["proc_stat"]["starttime"].as_str().and_then(parse_time).unwrap_or(0) - f[19].parse::<i64>().unwrap() * (S / 100);
                        // These depend on the moment, or on who asks.
                        for i in [3, 10, 12, 14, 15, 35, 39, 52] { f[i - 3] = "*".into(); }
                        same_stat(&r["proc_stat"], pid, &[&t, &esc], Some(&f), boot).map_err(|e| format!("process {id}: {e}"))?;
                        let sm = &r["proc_statm"];
                        if sm["size"] != m[0] * 4096 || sm["text"] != m[3] * 4096 || sm["data"] != m[5] * 4096 || sm["resident"].as_u64().unwrap_or(1) % 4096 != 0 || sm["shared"].as_u64().unwrap_or(1) % 4096 != 0 { return Err(format!("memory statistics {} of {m:?}", r["proc_statm"])); }
                    } else {
                        w.kid_exit(k, 0);
                        w.settle()?;
                        let r = w.get(&format!("/procs/{id}"))?;
                        let s = &r["procs"][id]["proc_stat"];
                        if s["pid"] != pid || s["comm"] != t && s["comm"] != esc { return Err(format!("after its end, statistics {s}")); }
                    }
                }
            }
            w.check_list()
        }));
    }
    v
}

//---- P29: times

/// Steps of the clocks: what they are called, and the changes of both.
const CLOCK: [(&str, i64, i64); 7] = [("1.5 s pass", S + S / 2, S + S / 2), ("the clock is set forward a day", 0, 86400 * S), ("the clock is set back a day", 0, -86400 * S),
    ("the clock is set back an hour while a minute passes", 60 * S, -3600 * S), ("the clock is set to 1970", 0, i64::MIN), ("the clock is set to 2038", 0, i64::MAX), ("100 days pass", 8_640_000 * S, 8_640_000 * S)];
fn clock(w: &mut World, c: usize) {
    let (_, m, x) = CLOCK[c];
    let x = match x { i64::MIN => 7_000_000_001 - w.wall, i64::MAX => 2_147_483_647_900_000_000 - w.wall, x => x };
    w.advance(m, x.max(S - w.wall));
}

pub fn times(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    let conf = || Conf::new(&["--serve", "--agent", "--agent-host", "127.0.0.1"]);
    // All sequences of clock changes and of what happens to processes.
    let len = if deep { 5 } else { 4 };
    for first in 0..6 {
        v.push(Scn::new(&format!("sequences of {len}#{}", first + 1), conf(), 0, move |w| {
            w.settle()?;
            w.start_procs(&json!({"a": cap1("a")}))?;
            for i in 0..len {
                let c = if i == 0 { first } else { w.choose("next", if deep { 11 } else { 9 }, 0) };
                match c {
                    0 => { if w.running("a") { let k = w.kid("a").unwrap(); w.kid_exit(k, 1); } }
                    1 => { if w.kid("b").is_none() { w.start_procs(&json!({"b": cap1("b")}))?; } else if w.running("b") { let k = w.kid("b").unwrap(); w.kid_raise(k, 9); } }
                    2 => { clock(w, 0); w.raise_chld(); }
                    n => { let n = n - 3; clock(w, [1, 3, 2, 0, 4, 5, 6, 0][n]); }
                }
                w.settle()?;
                w.quiescent()?;
                w.check_list()?;
                if i == 2 {
                    let lo = w.snap();
                    let m = w.request(0, json!({"type": "ProcResultRequest", "proc_id": "a"}))?;
                    let r = m.iter().find(|m| m["type"] == "ProcResult").ok_or("no result")?["res"].clone();
                    w.check_res("a", &r, &lo)?;
                }
            }
            clock(w, 2);
            w.check_list()
        }));
    }
    // Clock changes at any point of a start and an end.
    v.push(Scn::new("interleaved with starts and ends", conf().mask(&[K_WAIT]), if deep { 4 } else { 2 }, move |w| {
        w.settle()?;
        w.actor(vec![o_start(json!({"a": cap1("a"), "b": cap1("b")})), o_exit("a", 0), o_exit("b", 1)]);
        let o = |c: usize| op(CLOCK[c].0, move |w| { clock(w, c); Ok(()) });
        w.actor(vec![o(1), o(0), o(3)]);
        w.actor(vec![o_get("a"), o_get("b")]);
        w.inject = true;
        w.interleave(1, true, &|w| { w.check_reaped()?; w.check_pending() })?;
        w.inject = false;
        w.check_list()
    }));
    // Processes that are not started.
    v.push(Scn::new("processes that fail to start", conf().mask(&[K_FORK, K_PIPE, K_EXECVE, K_DUP2]), 0, move |w| {
        w.settle()?;
        let c = w.choose("clock", 7, 0);
        w.exec_errno = Some(Rc::new(|x| if x.argv[0] == b"a" { libc::ENOENT } else { 0 }));
        w.m.lenient = true;
        w.start_procs(&json!({"a": cap1("a"), "b": cap1("b")}))?;
        clock(w, c);
        w.check_list()?;
        let c = w.choose("clock", 7, 0);
        clock(w, c);
        w.kid_exit(w.kid("b").unwrap(), 0);
        w.settle()?;
        clock(w, 2);
        w.check_list()
    }));
    // Printed at the end.
    for a in [vec!["--print", "-"], vec!["--output", "res.json", "-"]] {
        let a2 = a.clone();
        v.push(Scn::new(&format!("with {}", a[0]), Conf::new(&a), 0, move |w| {
            let specs = json!({"a": cap1("a"), "b": cap1("b")});
            w.expect_procs(&specs);
            w.stdin(&serde_json::to_vec(&json!({"specs": specs})).unwrap());
            w.settle()?;
            for id in ["a", "b"] {
                let c = w.choose("clock", 7, 0); clock(w, c); w.settle()?;
                let c = w.choose("clock", 7, 0); clock(w, c); w.settle()?;
                w.kid_exit(w.kid(id).unwrap(), 0);
                w.settle()?;
            }
            if w.exited != Some(0) { return Err(format!("procstar has not ended: {:?}", w.exited)); }
            if a2[0] == "--print" { return w.check_print(); }
            let t = std::fs::read(format!("{}/res.json", w.scratch())).map_err(|e| format!("results: {e}"))?;
            w.check_results(&serde_json::from_slice(&t).map_err(|e| format!("results are not JSON: {e}"))?)
        }));
    }
    v
}

//---- P25: HTTP

/// What may be answered: statuses that fit.
fn fits(rsp: &Rsp, ok: &[u16], head: bool) -> R {
    if !ok.contains(&rsp.status) { return Err(format!("status {}, expected {ok:?}", rsp.status)); }
    if head || rsp.status == 204 { return Ok(()); }
    let j = rsp.json()?;
    if rsp.status / 100 == 2 { if !j["data"].is_object() { return Err(format!("status {} without data: {j}", rsp.status)); } }
    else if j["errors"].is_null() { return Err(format!("status {} without an error: {j}", rsp.status)); }
    if !rsp.ctype.starts_with("application/json") { return Err(format!("content type {:?}", rsp.ctype)); }
    Ok(())
}
const ANY4: [u16; 30] = [400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 501];
pub fn raw(method: &str, path: &str, ctype: Option<&str>, body: Option<&[u8]>) -> Vec<u8> {
    let mut h = format!("{method} {path} HTTP/1.1\r\nHost: localhost:3000\r\nConnection: close\r\n");
    if let Some(c) = ctype { h += &format!("Content-Type: {c}\r\n"); }
    if let Some(b) = body { h += &format!("Content-Length: {}\r\n", b.len()); }
    [h.as_bytes(), b"\r\n", body.unwrap_or(b"")].concat()
}
/// Nothing has changed: processes, signals, fds.
fn unchanged(w: &mut World, kids: usize, base: &std::collections::BTreeMap<i32, FdEnt>) -> R {
    if w.exited.is_some() { return Err(format!("procstar has ended: {:?}", w.exited)); }
    if w.kids.len() != kids { return Err("a process was started".into()); }
    for k in &w.kids { let g: Vec<i32> = k.got.iter().cloned().filter(|s| *s != 0).collect(); if !g.is_empty() { return Err(format!("process {} got signals {g:?}", k.name())); } }
    w.quiescent()?;
    w.check_list()?;
    let (a, b): (Vec<i32>, Vec<i32>) = (base.keys().cloned().collect(), w.fds().keys().cloned().collect());
    if a != b { return Err(format!("fds {a:?} have become {b:?}")); }
    Ok(())
}
/// Three processes: one that runs, one that has ended, one that could not be started.
fn three(w: &mut World) -> R<(usize, std::collections::BTreeMap<i32, FdEnt>)> {
    w.settle()?;
    if !w.bindip.starts_with("127.") && !w.bindip.starts_with("[::1]") { return Err(format!("serving on {}", w.bindip)); }
    w.exec_errno = Some(Rc::new(|x| if x.argv[0] == b"f" { libc::EACCES } else { 0 }));
    w.start_procs(&json!({"r": cap1("r"), "t": pspec("t", &[("stdout", capture("tempfile", Some("utf-8"), true)), ("stderr", capture("memory", None, false))]), "f": cap1("f")}))?;
    w.emit("r", 1, 20)?; w.emit("t", 1, 30)?; w.emit("t", 2, 40)?;
    w.settle()?;
    w.kid_exit(w.kid("t").unwrap(), 7);
    w.settle()?;
    w.quiescent()?;
    w.check_list()?;
    Ok((w.kids.len(), w.fds()))
}

/// Percent-decoding; what is not valid stays.
fn unescape(s: &str) -> String {
    let mut v = vec![];
    let mut b = s.as_bytes();
    while let Some(c) = b.first() {
        let h = |i: usize| b.get(i).and_then(|x| (*x as char).to_digit(16));
        if let (b'%', Some(x), Some(y)) = (*c, h(1), h(2)) { v.push((x * 16 + y) as u8); b = &b[3..]; } else { v.push(*c); b = &b[1..]; }
    }
    String::from_utf8(v).unwrap_or(s.into())
}

/// What is no request, whether the connection is then ended, and whether it may go without response.
pub fn nonsense() -> Vec<(Vec<u8>, bool, bool)> {
    let body = json!({"specs": {"n": cap1("n")}}).to_string();
    let ct = "Content-Type: application/json\r\n";
    let c = |s: String| s.into_bytes();
    let mut all: Vec<(Vec<u8>, bool, bool)> = vec![
        (c("\r\n".into()), true, true), (c("\r\n\r\n".into()), true, true), (c("GET\r\n\r\n".into()), false, false), (c("GET /procs\r\n\r\n".into()), false, false), (c("GET /procs HTTP/9.9\r\n\r\n".into()), false, false), (c("GET /procs HTTP/1.1".into()), true, true),
        (c("GET  /procs HTTP/1.1\r\n\r\n".into()), false, false), (c("GET /pro cs HTTP/1.1\r\n\r\n".into()), false, false), (b"GET /\xff HTTP/1.1\r\n\r\n".to_vec(), false, false), (b"\x16\x03\x01\x02\0\x01\0\x01\xfc\x03\x03".to_vec(), true, true), (vec![0; 64], false, false), (vec![b'A'; 10_000], true, true),
        (c("GET /procs HTTP/1.1\r\nHost\r\n\r\n".into()), false, false), (c("GET /procs HTTP/1.1\r\n: x\r\n\r\n".into()), false, false), (c("GET /procs HTTP/1.1\r\nA B: x\r\n\r\n".into()), false, false), (b"GET /procs HTTP/1.1\r\nA: \0\r\n\r\n".to_vec(), false, false),
        (c(format!("POST /procs HTTP/1.1\r\nContent-Length: x\r\n{ct}\r\n{body}")), false, false), (c(format!("POST /procs HTTP/1.1\r\nContent-Length: -1\r\n{ct}\r\n{body}")), false, false), (c(format!("POST /procs HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n{ct}\r\n{body}")), false, false),
        (c(format!("POST /procs HTTP/1.1\r\nContent-Length: {}\r\n{ct}\r\n{body}", body.len() + 10)), true, true), (c(format!("POST /procs HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n{ct}\r\n{body}")), true, true), (c(format!("POST /procs HTTP/1.1\r\nContent-Length: 1\r\nContent-Length: 2\r\n{ct}\r\n{body}")), false, false),
        (c(format!("POST /procs HTTP/1.1\r\nTransfer-Encoding: chunked\r\n{ct}\r\nzz\r\n{body}")), true, true), (c(format!("POST /procs HTTP/1.1\r\nTransfer-Encoding: chunked\r\n{ct}\r\nffffffffffffffffffff\r\n{body}")), true, true), (c(format!("POST /procs HTTP/1.1\r\nTransfer-Encoding: chunked\r\n{ct}\r\n5\r\n{{\"spe\r\n0\r\n\r\n")), false, false), (c(format!("POST /procs HTTP/1.1\r\nTransfer-Encoding: gzip\r\n{ct}\r\n{body}")), true, true),
        (c(format!("POST /procs HTTP/1.1\r\n{ct}\r\n{body}")), true, true), (c(format!("POST /procs HTTP/1.1\r\nExpect: 200-nonsense\r\nContent-Length: 2\r\n{ct}\r\n{{}}")), false, false), (c("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".into()), true, true),
    ];
    let mut many = String::from("GET /procs HTTP/1.1\r\n"); for i in 0..200 { many += &format!("X-{i}: y\r\n"); } all.push((c(many + "\r\n"), false, false));
    all.push((c(format!("GET /procs HTTP/1.1\r\nX: {}\r\n\r\n", "y".repeat(600_000))), true, true));
    all.push((c(format!("GET /{} HTTP/1.1\r\n\r\n", "y".repeat(70_000))), true, true));
    all
}
pub fn http(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    // Where it listens, if at all.
    for (args, port) in [(vec!["--serve"], Some(3000)), (vec!["-s", "--serve-port", "8080"], Some(8080)), (vec!["--serve-port=65535", "--serve"], Some(65535)), (vec!["--serve", "--serve-port", "1", "--wait", "-"], Some(1)),
        (vec!["--serve", "--agent", "--agent-host", "127.0.0.1", "--agent-port", "4000"], Some(3000)), (vec!["--agent", "--agent-host", "127.0.0.1", "--serve-port", "4000"], None), (vec!["--wait", "-"], None), (vec!["--wait", "--serve-port", "4000", "-"], None)] {
        v.push(Scn::new(&format!("listening, {}", args.join(" ")), Conf::new(&args), 0, move |w| {
            let s = json!({"a": cap1("a")});
            if args.contains(&"-") { w.stdin(&serde_json::to_vec(&json!({"specs": s})).unwrap()); w.expect_procs(&s); }
            w.settle()?;
            if w.listen.is_some() != port.is_some() { return Err(format!("procstar {} listen", if port.is_some() { "does not" } else { "does" })); }
            let Some(port) = port else { return Ok(()) };
            let (ip, p) = w.bindip.rsplit_once(':').unwrap_or(("", ""));
            if !ip.starts_with("127.") && ip != "[::1]" || p != port.to_string() || w.port != port { return Err(format!("serving on {}, not on port {port} of the local interface", w.bindip)); }
            if !args.contains(&"-") { w.start_procs(&s)?; }
            w.settle()?;
            w.check_list()
        }));
    }
    // Every character in an ID, in every way to write it in a path.
    v.push(Scn::new("characters of IDs", Conf::serve(), 0, move |w| {
        w.settle()?;
        let block = w.choose("block", 20, 0) as u32;
        let form = w.choose("form", 5, 0);
        let first = if block < 16 { block * 16 } else { [0x2010, 0x1f600, 0x4e00, 0xfff0][block as usize - 16] };
        let ids: Vec<String> = (first..first + 16).filter(|c| *c > 0).filter_map(char::from_u32).flat_map(|c| [format!("x{c}y"), format!("{c}%{c}{c}")]).collect();
        let s: serde_json::Map<String, J> = ids.iter().map(|id| (id.clone(), cap1("a"))).collect();
        w.start_procs(&J::Object(s))?;
        w.settle()?;
        for id in &ids {
            let mut p = String::new();
            for (i, b) in id.bytes().enumerate() {
                let plain = b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@".contains(&b);
                let unreserved = b.is_ascii_alphanumeric() || b"-._~".contains(&b);
                match form {
                    0 if plain => p.push(b as char),
                    1 if plain => p.push(b as char),
                    2 if unreserved => p.push(b as char),
                    0 | 2 => p += &format!("%{b:02X}"),
                    1 | 3 => p += &format!("%{b:02x}"),
                    _ => p += &if i % 2 == 0 { format!("%{b:02X}") } else { format!("%{b:02x}") },
                }
            }
            let i = w.http_raw("GET", &raw("GET", &format!("/procs/{p}"), None, None));
            w.settle()?;
            let r = w.take(i)?;
            if r.status != 200 { return Err(format!("process {id:?} as /procs/{p}: status {}", r.status)); }
            if !r.data()?["procs"][id].is_object() || r.data()?["procs"].as_object().unwrap().len() != 1 { return Err(format!("/procs/{p} is not about process {id:?}")); }
            let i = w.http_raw("GET", &raw("GET", &format!("/procs/{p}/output/stdout/data"), None, None));
            w.settle()?;
            let r = w.take(i)?;
            if r.status != 200 { return Err(format!("output of process {id:?} as /procs/{p}: status {}", r.status)); }
        }
        Ok(())
    }));
    // Every method on every path.
    let methods: Vec<&str> = if deep { vec!["GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "FOO", "CONNECT", "PROPFIND", "X-1"] } else { vec!["GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS", "TRACE", "FOO"] };
    for m in methods {
        v.push(Scn::new(&format!("method {m}"), Conf::serve(), 0, move |w| {
            let (n, base) = three(w)?;
            let mut paths: Vec<String> = ["/", "/procs", "/procs/", "/procs//", "//procs", "/procs?x=1", "/procs?", "/Procs", "/proc", "/procsx", "/procs#f", "/procs/r", "/procs/t", "/procs/f", "/procs/zz", "/procs/r?fds", "/procs/r/", "/procs//r", "/procs/R", "/procs/%72", "/procs/r%00", "/procs/%", "/procs/%ff", "/procs/..", "/procs/.", "/procs/r/..", "/procs/../procs", "/procs/r;x", "/procs/a%20b", "/procs/-1", "/procs/*",
                "/procs/r/signals", "/procs/r/signals/", "/procs/r/signals/99", "/procs/%74/signals/%315", "/procs/r/output/%31/data", "/procs/%2574", "/procs/%2", "/procs/%7", "/procs/%-72", "/procs/%+2", "/procs/%e2%82", "/procs/r%2Fsignals", "/procs/%72/output/%73tdout/data", "/procs/t/signals/15", "/procs/f/signals/15", "/procs/zz/signals/15", "/procs/r/signals/x", "/procs/r/signals/15/x", "/procs/r/signals//15", "/procs/r/signal/15", "/procs/r/signals/-15", "/procs/r/signals/65",
                "/procs/r/output", "/procs/r/output/stdout", "/procs/r/output/stdout/", "/procs/r/output/stdout/data", "/procs/r/output/1/data", "/procs/t/output/stdout/data", "/procs/t/output/2/data", "/procs/f/output/1/data", "/procs/zz/output/1/data", "/procs/r/output/stdin/data", "/procs/r/output/0/data", "/procs/r/output/7/data", "/procs/r/output/-1/data", "/procs/r/output/x/data", "/procs/r/output/99999999999/data", "/procs/r/output/1/data/", "/procs/r/output/1/text", "/procs/r/output//data",
                "/procs/r/fds/stdout", "/favicon.ico", "/etc/passwd", "/../../etc/passwd", "http://localhost:3000/procs", "http://example.com/procs/r", "*", "procs"].iter().map(|s| s.to_string()).collect();
            paths.push(format!("/procs/{}", "x".repeat(5000)));
            paths.push(format!("/{}", "procs/".repeat(500)));
            let p = paths[w.choose("path", paths.len(), 0)].clone();
            let bodies: [Option<&[u8]>; 3] = [None, Some(b""), Some(b"{}")];
            let body = bodies[w.choose("body", 3, 0)];
            let i = w.http_raw(&format!("{m} {p}"), &raw(m, &p, body.map(|_| "application/json"), body));
            w.settle()?;
            let rsp = w.take(i)?;
            // What is asked for?
            let path = p.split(|c| c == '?' || c == '#').next().unwrap();
            let path = path.strip_prefix("http://localhost:3000").or(path.strip_prefix("http://example.com")).unwrap_or(path);
            let seg: Vec<String> = path.split('/').enumerate().map(|(i, s)| if i == 2 || i == 4 { unescape(s) } else { s.to_string() }).collect();
            let seg: Vec<&str> = seg.iter().map(|s| &s[..]).collect();
            let known = |s: &str| ["r", "t", "f"].contains(&s);
            let e = |x: String| format!("{m} {p}: {x}");
            let mut gone = None;
            match (m, &seg[..]) {
                ("GET", ["", "procs"]) => fits(&rsp, &[200], false),
                ("GET", ["", "procs", id]) if known(id) => { fits(&rsp, &[200], false).map_err(e)?; let lo = w.snap(); w.check_res(id, &rsp.data()?["procs"][*id], &lo) }
                ("GET", ["", "procs", _]) => fits(&rsp, &[404], false),
                ("DELETE", ["", "procs", "r"]) => fits(&rsp, &[400, 403, 409], false),
                ("DELETE", ["", "procs", id]) if known(id) => { gone = Some(id.to_string()); fits(&rsp, &[200, 204], false) }
                ("DELETE", ["", "procs", _]) => fits(&rsp, &[404], false),
                ("POST", ["", "procs", id, "signals", s]) => {
                    let n = ["15", "99", "65"].contains(s);
                    fits(&rsp, if !known(id) && *s == "15" { &[404] } else if n && *id != "r" { &[400, 404, 409, 410] } else { &[400, 404, 422] }, false)
                }
                ("GET", ["", "procs", id, "output", fd, "data"]) => {
                    let n = fdnum(fd);
                    if !known(id) { fits(&rsp, &[404], false) }
                    else if let Some(n) = n.filter(|n| w.m.procs[*id].caps.contains_key(n)) {
                        if rsp.status != 200 { return Err(e(format!("status {}", rsp.status))); }
                        let want = w.m.out.get(&(id.to_string(), n)).cloned().unwrap_or_default();
                        if rsp.body != want { return Err(e(format!("{} bytes of {}", rsp.body.len(), want.len()))); }
                        let t = if w.m.procs[*id].caps[&n].text { "text/plain; charset=utf-8" } else { "application/octet-stream" };
                        if rsp.ctype != t { return Err(e(format!("content type {}", rsp.ctype))); }
                        Ok(())
                    }
                    else if rsp.status == 200 { if rsp.body.is_empty() { Ok(()) } else { Err(format!("{} bytes of nothing", rsp.body.len())) } }
                    else { fits(&rsp, &[400, 404, 409, 410], false) }
                }
                ("POST", ["", "procs"]) => fits(&rsp, &ANY4, false),
                // Not allowed, or unknown.  What the library rejects has no body.
                ("GET" | "POST" | "DELETE" | "PUT" | "PATCH" | "OPTIONS" | "TRACE" | "PROPFIND" | "FOO", _) if path.starts_with('/') && m != "CONNECT" => fits(&rsp, &ANY4, false),
                ("HEAD" | "OPTIONS", _) if rsp.status / 100 == 2 => Ok(()),
                _ => if ANY4.contains(&rsp.status) || rsp.status == 200 && m == "GET" && path == "*" { Ok(()) } else { Err(format!("status {}", rsp.status)) },
            }.map_err(e)?;
            if let Some(id) = gone {
                w.forget(&id);
                w.quiescent()?;
                return w.check_list();
            }
            unchanged(w, n, &base).map_err(|x| format!("after {m} {p}: {x}"))
        }));
    }
    // Requests to start processes.
    v.push(Scn::new("bodies of requests to start", Conf::serve(), 0, move |w| {
        let (n, base) = three(w)?;
        let good = json!({"specs": {"n": cap1("n")}}).to_string();
        let g = good.as_bytes();
        let mut bodies: Vec<(Vec<u8>, bool)> = vec![(g.to_vec(), true), ([b"\n\t ", g, b" \r\n"].concat(), true), (json!({"specs": {"n": cap1("n")}, "more": 1}).to_string().into(), false)];
        for b in ["", " ", "null", "1", "\"x\"", "[]", "{}", "{\"specs\"", "{\"specs\":null}", "{\"specs\":[]}", "{\"specs\":1}", "{\"specs\":{\"n\":null}}", "{\"specs\":{\"n\":{}}}", "{\"specs\":{\"n\":[]}}", "{\"specs\":{\"n\":{\"argv\":\"n\"}}}", "{\"specs\":{\"n\":{\"argv\":[1]}}}", "{\"specs\":{\"n\":{\"argv\":[null]}}}", "{\"specs\":{1:{}}}", "{'specs':{}}", "{\"procs\":{}}", "<xml/>", "specs=n", "{\"specs\":{\"n\":{\"argv\":[\"n\"],\"argv\":[\"m\"]}}}", "NaN", "true"] { bodies.push((b.as_bytes().to_vec(), false)); }
        bodies.push((b"\xff\xfe{}".to_vec(), false));
        bodies.push((b"{\"specs\":{\"n\":{\"argv\":[\"\xff\"]}}}".to_vec(), false));
        bodies.push((g[..g.len() - 1].to_vec(), false));
        bodies.push(([g, b"}"].concat(), false));
        bodies.push(([g, g].concat(), false));
        bodies.push((format!("{}{}", "[".repeat(3000), "]".repeat(3000)).into(), false));
        bodies.push((format!("{{\"specs\":{}1{}}}", "{\"a\":".repeat(3000), "}".repeat(3000)).into(), false));
        if deep { for i in 1..g.len() { bodies.push((g[..i].to_vec(), false)); } for i in 0..g.len() { let mut b = g.to_vec(); b.remove(i); bodies.push((b, false)); } }
        let (b, ok) = bodies[w.choose("body", bodies.len(), 0)].clone();
        let types = [Some("application/json"), None, Some("text/plain"), Some("application/x-www-form-urlencoded"), Some("APPLICATION/JSON"), Some("application/json; charset=utf-8"), Some("application/jsonx"), Some("\u{ff}")];
        let nt = if deep && b.len() > 500 { 2 } else { types.len() };
        let t = types[w.choose("content type", nt, 0)];
        let i = w.http_raw("POST /procs", &raw("POST", "/procs", t, Some(&b)));
        w.settle()?;
        let rsp = w.take(i)?;
        let what = format!("POST /procs of {:?} as {t:?}", String::from_utf8_lossy(&b[..b.len().min(60)]));
        let plain = t == Some("application/json");
        if rsp.status / 100 == 2 {
            fits(&rsp, &[200, 201, 202], false)?;
            let j: J = serde_json::from_slice(&b).map_err(|_| format!("{what}: accepted"))?;
            let specs = j["specs"].as_object().ok_or_else(|| format!("{what}: accepted"))?;
            if !ok && !specs.values().all(|s| s["argv"].as_array().map(|a| a.iter().all(|x| x.is_string())).unwrap_or(s["exe"].is_string())) { return Err(format!("{what}: accepted")); }
            if w.kids.len() != n + specs.len() { return Err(format!("{what}: accepted, but {} processes were started", w.kids.len() - n)); }
            if ok { w.m.procs.insert("n".into(), PM::new("n", &cap1("n"), &[0, 1, 2])); w.quiescent()?; return w.check_list(); }
            if !specs.is_empty() { return Ok(()); }
        } else {
            if ok && plain { return Err(format!("{what}: status {}", rsp.status)); }
            fits(&rsp, &ANY4, false).map_err(|e| format!("{what}: {e}"))?;
        }
        unchanged(w, n, &base).map_err(|x| format!("after {what}: {x}"))
    }));
    // What is no request, or not in one piece.
    v.push(Scn::new("malformed requests", Conf::serve(), 0, move |w| {
        let (n, base) = three(w)?;
        let all = nonsense();
        let (data, end, mute) = all[w.choose("request", all.len(), 0)].clone();
        let i = w.http_raw("malformed", &data);
        w.settle()?;
        if w.reqs[i].rsp.is_none() && end { w.http_drop(i); w.settle()?; }
        else if w.reqs[i].rsp.is_none() && !mute && !w.reqs[i].eof { return Err(format!("no response to {:?}", String::from_utf8_lossy(&data[..data.len().min(60)]))); }
        if let Some(r) = &w.reqs[i].rsp { if r.status / 100 == 5 && r.status != 501 && r.status != 505 { return Err(format!("status {} for {:?}", r.status, String::from_utf8_lossy(&data[..data.len().min(60)]))); } }
        w.reqs[i].taken = true;
        unchanged(w, n, &base).map_err(|x| format!("after {:?}: {x}", String::from_utf8_lossy(&data[..data.len().min(60)])))
    }));
    // A request in pieces, and others meanwhile.
    v.push(Scn::new("requests in pieces", Conf::serve(), 0, move |w| {
        let (n, _) = three(w)?;
        let spec = json!({"specs": {"n": cap1("n")}});
        let body = spec.to_string();
        let kind = w.choose("kind", 4, 0);
        let data = match kind {
            0 => raw("POST", "/procs", Some("application/json"), Some(body.as_bytes())),
            1 => { let (a, b) = body.split_at(body.len() / 2); format!("POST /procs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n{:x}\r\n{a}\r\n{:x}\r\n{b}\r\n0\r\n\r\n", a.len(), b.len()).into_bytes() }
            2 => raw("DELETE", "/procs/t", None, None),
            _ => raw("GET", "/procs/r", None, None),
        };
        let step = if deep { 1 } else { 9 };
        let cuts: Vec<usize> = (1..data.len()).filter(|i| i % step == 0 || data[i - 1] == b'\n').collect();
        let cut = cuts[w.choose("cut", cuts.len(), 0)];
        let hangup = w.choose("hang up", 2, 0) == 1;
        let i = w.http_raw("in pieces", &data[..cut]);
        w.settle()?;
        if w.reqs[i].rsp.is_some() { return Err("response to half a request".into()); }
        if w.kids.len() != n { return Err("half a request starts a process".into()); }
        w.quiescent()?;
        w.check_list()?;
        // Meanwhile.
        let r = w.call("POST", "/procs/r/signals/10", None)?;
        if r.status != 200 { return Err(format!("signal: status {}", r.status)); }
        let rk = w.kid("r").unwrap();
        w.settle()?;
        if w.kids[rk].phase != Phase::Dead { return Err("a request is held up by half a request".into()); }
        if hangup { w.http_drop(i); w.settle()?; w.reqs[i].taken = true; }
        else {
            w.http_more(i, &data[cut..]);
            w.settle()?;
            let r = w.take(i)?;
            if r.status != 200 { return Err(format!("status {} when sent in pieces", r.status)); }
            if kind < 2 { w.m.procs.insert("n".into(), PM::new("n", &spec["specs"]["n"], &[0, 1, 2])); }
            if kind == 2 { w.forget("t"); }
        }
        if (w.kids.len() != n) != (kind < 2 && !hangup) { return Err(format!("{} processes were started", w.kids.len() - n)); }
        w.quiescent()?;
        w.check_list()
    }));
    // Several requests on one connection.
    v.push(Scn::new("requests on one connection", Conf::serve(), 0, move |w| {
        let _ = three(w)?;
        let sets: [(&str, &str, u16); 6] = [("GET", "/procs/r", 200), ("GET", "/nope", 404), ("DELETE", "/procs/t", 200), ("GET", "/procs/t", 200), ("POST", "/procs/r/signals/10", 200), ("PUT", "/procs", 405)];
        let len = if deep { 4 } else { 3 };
        let together = w.choose("together", 2, 0) == 1;
        let mut seq = vec![];
        for _ in 0..len { seq.push(w.choose("request", sets.len(), 0)); }
        let mut want = vec![];
        let (mut t, mut r) = (true, true);
        let mut data = vec![];
        for (j, c) in seq.iter().enumerate() {
            let (m, p, s) = sets[*c];
            want.push(match c { 2 | 3 if !t => 404, 4 if !r => 400, _ => s });
            if *c == 2 { t = false; } if *c == 4 { r = false; }
            data.push(format!("{m} {p} HTTP/1.1\r\nHost: x\r\n{}\r\n", if j + 1 == len { "Connection: close\r\n" } else { "" }));
        }
        if together && seq.windows(2).any(|x| x[0] == 4 && x[1] == 4) || together && seq.iter().filter(|c| **c == 4).count() > 1 { return Ok(()); }
        let i = w.http_raw("several", if together { data.concat() } else { data[0].clone() }.as_bytes());
        w.reqs[i].multi = true;
        w.settle()?;
        if !together { for d in &data[1..] { w.http_more(i, d.as_bytes()); w.settle()?; } }
        let got: Vec<u16> = w.reqs[i].all.iter().map(|r| r.status).collect();
        w.reqs[i].taken = true;
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, x)| g == x || *x == 400 && [400, 404, 409, 410].contains(g));
        if !same { return Err(format!("{seq:?}: statuses {got:?}, expected {want:?}")); }
        for (c, r) in seq.iter().zip(&w.reqs[i].all.clone()) { if *c == 0 && r.data()?["procs"]["r"].is_null() || *c == 3 && r.status == 200 && r.data()?["procs"]["t"].is_null() { return Err("a response is to another request".into()); } }
        if !t { w.forget("t"); }
        w.settle()?;
        w.check_reaped()?;
        w.check_list()
    }));
    v
}

//---- P30: authentication

const CERT: &str = "-----BEGIN CERTIFICATE-----\nMIIBAA==\n-----END CERTIFICATE-----\n";
const TOKENS: [&str; 6] = ["", "s3cret-t0ken-xyzzy", " sp ace\ttab ", "\u{fc}n\u{ef}c\u{f6}de\u{1f511}", "PROCSTAR_AGENT_TOKEN=x", "\"q\\uote'"];

pub fn auth(deep: bool) -> Vec<Scn> {
    let mut v = vec![];
    // (arguments' host, environment's host), port, certificate, token: all combinations.
    let hosts: Vec<(Option<&str>, Option<&[u8]>)> = vec![(Some("127.0.0.1"), None), (Some("10.1.2.3"), Some(b"10.9.9.9")), (None, Some(b"192.168.7.8")), (None, None)];
    let ports: Vec<Option<&str>> = if deep { vec![None, Some("443"), Some("1"), Some("65535"), Some("59789")] } else { vec![None, Some("443"), Some("65535")] };
    let certs = ["none", "file", "absolute", "empty name", "missing", "directory", "empty", "ill-formed", "not text", "inline", "unreadable"];
    for (hi, host) in hosts.iter().enumerate() {
        for port in &ports {
            for bad in if deep || hi == 0 || hi == 2 { vec![false, true] } else { vec![false] } {
                for cert in certs {
                    if cert != "none" && !deep && (hi != 0 || *port != None && cert != "file" || bad) { continue; }
                    for ti in 0..TOKENS.len() + 2 {
                        if ti > 1 && !deep && (hi > 1 || cert != "none" || port.is_some()) { continue; }
                        if ti > 1 && deep && cert != "none" && cert != "file" { continue; }
                        let mut args = vec!["--serve", "--agent"];
                        if let Some(h) = host.0 { args.extend(["--agent-host", h]); }
                        if let Some(p) = port { args.extend(["--agent-port", p]); }
                        let mut c = Conf::new(&args).file("cert.pem", CERT.as_bytes()).file("empty.pem", b"").file("bad.pem", b"-----BEGIN NONSENSE-----\n").file("bin.pem", b"\xff\xfe\x00-----BEGIN CERTIFICATE-----\n").env("PATH", "/bin");
                        if bad { c = c.envb(b"B\xc3D", b"x\xff").envb(b"A", b"\x80"); }
                        if let Some(h) = host.1 { c = c.envb(b"PROCSTAR_AGENT_HOST", h); }
                        let path = match cert { "none" => None, "file" => Some("cert.pem"), "absolute" => Some("/dev/null"), "empty name" => Some(""), "missing" => Some("no.pem"), "directory" => Some("/"), "empty" => Some("empty.pem"), "ill-formed" => Some("bad.pem"), "not text" => Some("bin.pem"), "inline" => Some(CERT), _ => Some("/proc/1/mem") };
                        if let Some(p) = path { c = c.env("PROCSTAR_AGENT_CERT", p); }
                        let token: &str = TOKENS.get(ti).copied().unwrap_or("");
                        if ti < TOKENS.len() { c = c.env("PROCSTAR_AGENT_TOKEN", token); }
                        // One that is not text, or none at all.
                        if ti == TOKENS.len() { c = c.envb(b"PROCSTAR_AGENT_TOKEN", b"t\xffoken"); }
                        c = c.env("PROCSTAR_AGENT_TOKEN2", "not the token").env("XPROCSTAR_AGENT_TOKEN", "nor this");
                        let (want_host, port) = (host.0.map(|s| s.to_string()).or(host.1.map(|h| String::from_utf8_lossy(h).to_string())), port.unwrap_or("59789").to_string());
                        v.push(Scn::new(&format!("certificate {cert}, host {host:?}{}#port {port}, token {ti}", if bad { " and ill-formed variables" } else { "" }), c, 0, move |w| {
                            w.ws_auto = false; w.ws_autoreg = false;
                            w.settle()?;
                            let Some(want) = &want_host else {
                                if !w.connects.is_empty() { return Err(format!("connects to {}, though no host is configured", w.connects[0].0)); }
                                return match w.exited { Some(0) | None => Err(format!("no agent host is configured, and procstar goes on: {:?}", w.exited)), Some(c) if c & 127 != 0 || c == 101 << 8 => Err(format!("without an agent host, procstar crashes ({c})")), _ => Ok(()) };
                            };
                            if cert != "none" && cert != "file" {
                                // No connection with another trust than is configured, and no harm.
                                for _ in 0..3 { if w.timeout >= 0 { w.expire(); w.settle()?; } }
                                if w.ws.iter().any(|x| x.preamble.is_some() || x.upgrade.is_some()) { return Err("a connection without the certificate configured".into()); }
                                if w.exited.map(|c| c & 127 != 0 || c == 0 || c == 101 << 8).unwrap_or(false) { return Err(format!("procstar ends with {:?}", w.exited)); }
                                if w.exited.is_some() { return Ok(()); }
                                w.start_procs(&json!({"a": cap1("a")}))?;
                                return w.check_list();
                            }
                            if w.exited.is_some() { return Err(format!("procstar has ended: {:?}", w.exited)); }
                            let check = |w: &mut World, i: usize| -> R {
                                if w.connects.len() != i + 1 || w.ws.len() != i + 1 { return Err(format!("{} connections, expected {}", w.connects.len(), i + 1)); }
                                if w.connects[i].0 != format!("{want}:{port}") { return Err(format!("connects to {}, not {want}:{port}", w.connects[i].0)); }
                                let certs = if cert == "file" { CERT.replace('\n', "|") } else { String::new() };
                                let want_tls = format!("PXTLS domain={want} bad_certs=0 bad_hostnames=0 no_builtin=0 certs={certs}");
                                let pre = w.ws[i].preamble.clone().ok_or("no TLS handshake")?;
                                // Less trust is as good.
                                if pre != want_tls && pre != want_tls.replace("no_builtin=0", "no_builtin=1") { return Err(format!("TLS is set up as {pre}, expected {want_tls}")); }
                                let up = w.ws[i].upgrade.clone().ok_or("no websocket handshake")?;
                                if token.len() > 5 && up.contains(token) { return Err("the token is in the websocket handshake".into()); }
                                if !w.ws_new(i).is_empty() { return Err("messages before the websocket handshake".into()); }
                                w.ws_accept(i);
                                w.settle()?;
                                let m = w.ws_new(i);
                                if m.len() != 1 { return Err(format!("{} messages at registration", m.len())); }
                                let j = m[0].json();
                                if j["type"] != "Register" || j["access_token"] != token { return Err(format!("registers with token {}, not {token:?}", j["access_token"])); }
                                let mut j = j; j["access_token"] = J::Null;
                                if token.len() > 5 && j.to_string().contains(token) { return Err("the token is elsewhere in the registration".into()); }
                                Ok(())
                            };
                            check(w, 0)?;
                            w.ws_send(0, &crate::msgpack::V::from_json(&json!({"type": "Registered"})));
                            w.settle()?;
                            w.start_procs(&json!({"a": cap1("a")}))?;
                            let k = w.kid("a").unwrap();
                            w.request(0, json!({"type": "ProcStartRequest", "specs": {"a": cap1("a")}}))?;
                            w.request(0, json!({"type": "ProcidListRequest"}))?;
                            let x = w.kids[k].exec.clone().unwrap();
                            if token.len() > 5 && x.env.iter().chain(x.argv.iter()).any(|e| String::from_utf8_lossy(e).contains(token)) { return Err("a process gets the token".into()); }
                            if token.len() > 5 { let l = String::from_utf8_lossy(&w.stderr()).to_string(); if l.contains(token) || l.contains(&format!("{token:?}")[1..format!("{token:?}").len() - 1]) { return Err("the token is in the log".into()); } }
                            let l = w.get("/procs")?.to_string();
                            if token.len() > 5 && (l.contains(token) || w.ws[0].got.iter().skip(1).any(|m| m.json().to_string().contains(token))) { return Err("the token is sent elsewhere".into()); }
                            w.check_list()?;
                            // Again, after a loss.
                            w.ws_drop(0);
                            w.settle()?;
                            for _ in 0..3 { if w.connects.len() < 2 && w.timeout >= 0 { w.expire(); w.settle()?; } }
                            check(w, 1)
                        }));
                    }
                }
            }
        }
    }
    v
}
