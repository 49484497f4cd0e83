//! The explorer: enumerates every sequence of choices of every scenario, up to
//! a bound on the summed cost of the choices that differ from the default.
use crate::wire::Server;
use crate::world::{Conf, World};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R<T = ()> = Result<T, String>;
pub type Body = Arc<dyn Fn(&mut World) -> R + Send + Sync>;

#[derive(Clone)]
pub struct Scn {
    pub name: String,
    pub conf: Conf,
    pub bound: u32,
    pub body: Body,
}
impl Scn {
    pub fn new(name: &str, conf: Conf, bound: u32, body: impl Fn(&mut World) -> R + Send + Sync + 'static) -> Scn {
        Scn { name: name.to_string(), conf, bound, body: Arc::new(body) }
    }
}

/// One decision taken during an execution.
#[derive(Clone, Debug)]
pub struct Dec { pub n: u32, pub took: u32, pub cost: u32, pub label: &'static str }

#[derive(Default)]
pub struct Chooser { pub script: Vec<u32>, pub trace: Vec<Dec> }
impl Chooser {
    /// Choose one of `n`; alternatives other than 0 cost `cost`.
    pub fn choose(&mut self, label: &'static str, n: usize, cost: u32) -> usize {
        if n <= 1 { return 0; }
        let i = self.trace.len();
        let took = self.script.get(i).copied().unwrap_or(0).min(n as u32 - 1);
        self.trace.push(Dec { n: n as u32, took, cost, label });
        took as usize
    }
}

pub struct Outcome {
    pub trace: Vec<Dec>,
    pub result: R,
    pub states: Vec<u64>,
    pub steps: u64,
    pub log: Vec<String>,
    pub harness: bool,
}

/// Fork servers, by configuration.
pub struct Servers { map: HashMap<String, Server>, order: VecDeque<String>, scratch: String, bin: String, pub spawned: u64 }
impl Servers {
    pub fn new(bin: &str, scratch: &str) -> Servers {
        std::fs::create_dir_all(scratch).unwrap();
        chmod(scratch, 0o777);
        Servers { map: HashMap::new(), order: VecDeque::new(), scratch: scratch.to_string(), bin: bin.to_string(), spawned: 0 }
    }
    fn get(&mut self, conf: &Conf) -> &Server {
        let key = conf.key();
        if !self.map.contains_key(&key) {
            if self.map.len() >= 6 {
                if let Some(k) = self.order.pop_front() { self.map.remove(&k); }
            }
            let extra = conf.extra_fds();
            let raw: Vec<i32> = extra.iter().map(|f| f.0).collect();
            let s = Server::spawn(&self.bin, &conf.args, &conf.env, &self.scratch, &raw, &conf.ign);
            self.spawned += 1;
            self.map.insert(key.clone(), s);
            self.order.push_back(key.clone());
        }
        &self.map[&key]
    }
    fn forget(&mut self, conf: &Conf) {
        let key = conf.key();
        self.map.remove(&key);
        self.order.retain(|k| *k != key);
    }
}
impl Drop for Servers {
    fn drop(&mut self) { self.map.clear(); let _ = std::fs::remove_dir_all(&self.scratch); }
}
pub fn chmod(p: &str, mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
}

fn clear_dir(p: &str) {
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() { let _ = std::fs::remove_dir_all(&p); } else { let _ = std::fs::remove_file(&p); }
        }
    }
}

pub fn run_one(servers: &mut Servers, scn: &Scn, script: &[u32], keep_log: bool) -> Outcome {
    clear_dir(&servers.scratch);
    for (name, data, mode) in &scn.conf.files {
        let p = format!("{}/{}", servers.scratch, name);
        if let Some(d) = std::path::Path::new(&p).parent() { let _ = std::fs::create_dir_all(d); chmod(d.to_str().unwrap(), 0o777); }
        std::fs::write(&p, data).unwrap();
        chmod(&p, *mode);
        unsafe { let c = std::ffi::CString::new(p.as_str()).unwrap(); libc::chown(c.as_ptr(), 65534, 65534); }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let srv = servers.get(&scn.conf);
        let mut w = World::start(srv, &scn.conf, Chooser { script: script.to_vec(), trace: Vec::new() }, keep_log);
        let mut result = (scn.body)(&mut w);
        match result {
            Ok(()) => result = w.finish(),
            // A crash explains more than what it leads to.
            Err(ref m) if w.exited.is_some() => if let Err(f) = w.finish() { if !m.starts_with(&f) { result = Err(f); } },
            _ => {}
        }
        let (trace, states, steps, log) = w.end();
        Outcome { trace, result, states, steps, log, harness: false }
    }));
    match r {
        Ok(o) => o,
        Err(e) => {
            servers.forget(&scn.conf);
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            Outcome { trace: vec![], result: Err(format!("the execution could not be completed: {m}")), states: vec![], steps: 0, log: vec![m], harness: true }
        }
    }
}

#[derive(Default)]
struct Shared { queue: VecDeque<(usize, Vec<u32>, u32)>, busy: usize }

pub struct Found { pub scn: String, pub choices: Vec<u32>, pub msg: String }
pub struct Summary {
    pub execs: u64, pub steps: u64, pub states: u64, pub choices: u64, pub complete: bool, pub found: Vec<Found>, pub unconfirmed: Vec<Found>,
    pub per: BTreeMap<String, (u64, u32)>, pub samples: Vec<serde_json::Value>, pub labels: BTreeMap<String, u64>, pub maxdepth: usize,
}

/// A violation's identity: its message without numbers that vary between runs.
pub fn signature(msg: &str) -> String {
    let mut o = String::new();
    let mut num = false;
    for c in msg.chars() {
        if c.is_ascii_digit() { if !num { o.push('#'); } num = true; } else { num = false; o.push(c); }
        if o.len() > 160 { break; }
    }
    o
}

pub fn explore(scns: Vec<Scn>, bin: &str, workers: usize, cap: Duration, stop_at: usize) -> Summary {
    let scns = Arc::new(scns);
    let shared = Arc::new((Mutex::new(Shared::default()), Condvar::new()));
    {
        let mut s = shared.0.lock().unwrap();
        for i in 0..scns.len() { s.queue.push_back((i, vec![], 0)); }
    }
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let capped = Arc::new(AtomicBool::new(false));
    let execs = Arc::new(AtomicU64::new(0));
    let steps = Arc::new(AtomicU64::new(0));
    let nchoice = Arc::new(AtomicU64::new(0));
    let states = Arc::new(Mutex::new(HashSet::<u64>::new()));
    let found = Arc::new(Mutex::new(Vec::<Found>::new()));
    let unconf = Arc::new(Mutex::new(Vec::<Found>::new()));
    let sigs = Arc::new(Mutex::new(HashSet::<String>::new()));
    let per = Arc::new(Mutex::new(BTreeMap::<String, (u64, u32)>::new()));
    let labels = Arc::new(Mutex::new(BTreeMap::<String, u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::new()));
    let maxd = Arc::new(AtomicU64::new(0));
    let mut hs = Vec::new();
    for wi in 0..workers {
        let (scns, shared, stop, capped, execs, steps, states, found, unconf, sigs, per, samples, nchoice, labels, maxd) = (
            scns.clone(), shared.clone(), stop.clone(), capped.clone(), execs.clone(), steps.clone(), states.clone(), found.clone(), unconf.clone(),
            sigs.clone(), per.clone(), samples.clone(), nchoice.clone(), labels.clone(), maxd.clone());
        let bin = bin.to_string();
        hs.push(std::thread::spawn(move || {
            let mut servers = Servers::new(&bin, &format!("/tmp/px-{}-{}", std::process::id(), wi));
            loop {
                let item = {
                    let mut s = shared.0.lock().unwrap();
                    loop {
                        if stop.load(Ordering::SeqCst) { return; }
                        if let Some(x) = s.queue.pop_front() { s.busy += 1; break x; }
                        if s.busy == 0 { shared.1.notify_all(); return; }
                        s = shared.1.wait(s).unwrap();
                    }
                };
                let (si, script, used) = item;
                let scn = &scns[si];
                let o = run_one(&mut servers, scn, &script, false);
                execs.fetch_add(1, Ordering::Relaxed);
                steps.fetch_add(o.steps, Ordering::Relaxed);
                nchoice.fetch_add(o.trace.len() as u64, Ordering::Relaxed);
                maxd.fetch_max(o.trace.len() as u64, Ordering::Relaxed);
                states.lock().unwrap().extend(o.states.iter());
                {
                    let mut p = per.lock().unwrap();
                    let key = scn.name.split('#').next().unwrap().to_string();
                    let e = p.entry(key).or_insert((0, scn.bound)); e.0 += 1;
                    if e.0 == 1 {
                        let mut l = samples.lock().unwrap();
                        if l.len() < 12 { l.push(json!({"scenario": scn.name, "choices": script, "decisions": o.trace.iter().take(40).map(|d| format!("{}:{}/{}", d.label, d.took, d.n)).collect::<Vec<_>>()})); }
                    }
                }
                {
                    let mut l = labels.lock().unwrap();
                    for d in &o.trace { *l.entry(d.label.to_string()).or_insert(0) += 1; }
                }
                // Alternatives.
                let mut next = Vec::new();
                if o.trace.len() >= script.len() {
                    for i in script.len()..o.trace.len() {
                        let d = &o.trace[i];
                        if used + d.cost > scn.bound { continue; }
                        for c in 1..d.n {
                            let mut s: Vec<u32> = o.trace[..i].iter().map(|d| d.took).collect();
                            s.push(c);
                            next.push((si, s, used + d.cost));
                        }
                    }
                }
                if let Err(m) = &o.result {
                    let choices: Vec<u32> = if o.harness { script.clone() } else { o.trace.iter().map(|d| d.took).collect() };
                    let sig = format!("{}|{}", scn.name.split('#').next().unwrap(), signature(m));
                    let fresh = sigs.lock().unwrap().insert(sig.clone());
                    if fresh {
                        // Confirm by replay.
                        let mut again = 0;
                        for _ in 0..2 {
                            let o2 = run_one(&mut servers, scn, &choices, false);
                            if o2.result.is_err() { again += 1; }
                        }
                        let f = Found { scn: scn.name.clone(), choices, msg: m.clone() };
                        if again == 2 {
                            let mut l = found.lock().unwrap();
                            l.push(f);
                            if l.len() >= stop_at { stop.store(true, Ordering::SeqCst); }
                        } else { sigs.lock().unwrap().remove(&sig); unconf.lock().unwrap().push(f); }
                    }
                }
                let mut s = shared.0.lock().unwrap();
                for x in next {
                    // Cheapest deviations first.
                    if x.2 == used { s.queue.push_front(x) } else { s.queue.push_back(x) }
                }
                s.busy -= 1;
                if t0.elapsed() > cap { if !s.queue.is_empty() { capped.store(true, Ordering::SeqCst); } stop.store(true, Ordering::SeqCst); }
                drop(s);
                shared.1.notify_all();
            }
        }));
    }
    for h in hs { if h.join().is_err() { eprintln!("a worker failed"); capped.store(true, Ordering::SeqCst); } }
    let nstates = states.lock().unwrap().len() as u64;
    let fl = std::mem::take(&mut *found.lock().unwrap());
    let ul = std::mem::take(&mut *unconf.lock().unwrap());
    let pl = std::mem::take(&mut *per.lock().unwrap());
    let sl = std::mem::take(&mut *samples.lock().unwrap());
    let ll = std::mem::take(&mut *labels.lock().unwrap());
    let complete = !capped.load(Ordering::SeqCst) && fl.len() < stop_at;
    Summary {
        execs: execs.load(Ordering::SeqCst), steps: steps.load(Ordering::SeqCst), states: nstates, choices: nchoice.load(Ordering::SeqCst),
        complete, found: fl, unconfirmed: ul, per: pl, samples: sl, labels: ll, maxdepth: maxd.load(Ordering::SeqCst) as usize,
    }
}
