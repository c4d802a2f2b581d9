//! Command line, work distribution over forked processes, and results.
use crate::exec::*;
use crate::expr::*;
use crate::ll::{Program, V};
use crate::solver::{Solver, Stats};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn getpid() -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut c_void;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

/// shared between all worker processes
#[repr(C)]
pub struct Shared {
    active: AtomicI64,
    paths: AtomicI64,
    fails: AtomicI64,
    stop: AtomicI64,
}

#[derive(Default)]
pub struct Par {
    sh: Option<&'static Shared>,
    jobs: i64,
    dir: String,
    last: Option<Instant>,
    deadline: Option<Instant>,
    kids: Vec<i32>,
    dead_kids: u64,
    pub names: Vec<String>,
    res: Results,
    max_fail: i64,
    max_paths: i64,
    sample_mod: u64,
    max_samples: usize,
    seed: u64,
    root: bool,
}

#[derive(Default)]
struct Results {
    per: BTreeMap<u32, Per>,
    lines: Vec<String>,
    nfail: usize,
    nsample: BTreeMap<u32, usize>,
}
#[derive(Default)]
struct Per {
    done: u64, infeasible: u64, panics: u64, fails: u64, incomplete: u64, steps: u64, asserts: u64, maxdepth: u32, maxpc: usize,
    reached: BTreeMap<u32, u64>,
    time: f64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

impl Engine {
    fn inputs_json(&self, s: &State) -> String {
        let v: Vec<String> = s.inputs.iter().map(|&e| format!("[{},{}]", width(e), s.model.eval(e))).collect();
        format!("[{}]", v.join(","))
    }
    fn obs_json(&self, s: &State) -> String {
        let v: Vec<String> = s.obs.iter().map(|v| match v { V::C(k) => k.to_string(), V::S(e) => if meta(*e).undef { "null".into() } else { s.model.eval(*e).to_string() }, _ => "null".into() }).collect();
        format!("[{}]", v.join(","))
    }

    fn record(&mut self, s: &State, st: Stop, t: f64) {
        let h = s.h;
        let name = self.par.names[h as usize].clone();
        let sh = self.par.sh.unwrap();
        sh.paths.fetch_add(1, SeqCst);
        let per = self.par.res.per.entry(h).or_default();
        per.steps += s.steps;
        per.time += t;
        per.asserts += s.asserts as u64;
        per.maxdepth = per.maxdepth.max(s.depth);
        per.maxpc = per.maxpc.max(s.pc.len());
        for &r in &s.reached { *per.reached.entry(r).or_insert(0) += 1; }
        let mut bad: Option<(&str, String, u32, String)> = None;
        let mut ok = false;
        match &st {
            Stop::Done => {
                if let Some(id) = s.expect_panic.filter(|&id| id != u32::MAX) {
                    per.fails += 1;
                    bad = Some(("fail", "nopanic".into(), id, format!("no panic where one is required ({})", id)));
                } else { per.done += 1; ok = true; }
            }
            Stop::Infeasible => per.infeasible += 1,
            Stop::Panic { msg, nounwind } => {
                match s.expect_panic {
                    Some(id) if !*nounwind => { per.panics += 1; if id != u32::MAX { *per.reached.entry(id).or_insert(0) += 1; } ok = true; }
                    _ => { per.fails += 1; bad = Some(("fail", if *nounwind { "abort".into() } else { "panic".into() }, 0, msg.clone())); }
                }
            }
            Stop::Fail { kind, id, msg } => { per.fails += 1; bad = Some(("fail", kind.clone(), *id, msg.clone())); }
            Stop::Incomplete(m) => { per.incomplete += 1; bad = Some(("incomplete", "incomplete".into(), 0, m.clone())); }
            Stop::Forked => return,
        }
        if let Some((t, kind, id, msg)) = bad {
            sh.fails.fetch_add(1, SeqCst);
            if self.par.res.nfail < 40 {
                self.par.res.nfail += 1;
                let l = format!("{{\"t\":{},\"h\":{},\"kind\":{},\"id\":{},\"msg\":{},\"at\":{},\"inputs\":{},\"obs\":{}}}", js(t), js(&name), js(&kind), id, js(&msg), js(&self.backtrace(s)), self.inputs_json(s), self.obs_json(s));
                self.par.res.lines.push(l);
            }
        } else if ok {
            let n = *self.par.res.nsample.get(&h).unwrap_or(&0);
            if n < self.par.max_samples {
                let ins = self.inputs_json(s);
                let mut k = self.par.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h as u64;
                for b in ins.bytes() { k = (k ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3); k ^= k >> 29; }
                if n == 0 || k % self.par.sample_mod == 0 {
                    *self.par.res.nsample.entry(h).or_insert(0) += 1;
                    let l = format!("{{\"t\":\"sample\",\"h\":{},\"inputs\":{},\"obs\":{},\"panic\":{}}}", js(&name), ins, self.obs_json(s), matches!(st, Stop::Panic { .. }));
                    self.par.res.lines.push(l);
                }
            }
        }
    }

    /// hand part of the work to a new process when there is room; true in the child
    pub fn poll(&mut self) -> bool {
        let sh = match self.par.sh { Some(s) => s, None => return false };
        if sh.stop.load(SeqCst) != 0 { return true; }
        let now = Instant::now();
        if self.par.deadline.map_or(false, |d| now > d) { sh.stop.store(1, SeqCst); }
        if self.par.jobs <= 1 || self.work.is_empty() { return false; }
        if let Some(l) = self.par.last { if now - l < Duration::from_millis(15) { return false; } }
        self.par.last = Some(now);
        self.reap(false);
        let a = sh.active.load(SeqCst);
        if a >= self.par.jobs || sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { return false; }
        let n = (self.work.len() + 1) / 2;
        std::io::stdout().flush().ok();
        let pid = unsafe { fork() };
        if pid < 0 { sh.active.fetch_sub(1, SeqCst); return false; }
        if pid > 0 {
            self.par.kids.push(pid);
            self.work.drain(..n);
            return false;
        }
        unsafe { prctl(1, 9, 0, 0, 0); } // die with the parent
        self.work.truncate(n);
        let p = &mut self.par;
        p.kids.clear();
        p.dead_kids = 0;
        p.root = false;
        p.res = Default::default();
        p.last = Some(Instant::now());
        self.sv.st = Stats::default();
        self.insts = 0;
        self.forks = 0;
        self.checks_const = 0;
        self.checks_solver = 0;
        self.funcs_hit.clear();
        self.blocks_hit.clear();
        true
    }
    fn reap(&mut self, block: bool) {
        let mut i = 0;
        while i < self.par.kids.len() {
            let mut st = 0;
            let r = unsafe { waitpid(self.par.kids[i], &mut st, if block { 0 } else { 1 }) };
            if r == 0 { i += 1; continue; }
            if st != 0 { self.par.dead_kids += 1; self.par.sh.unwrap().active.fetch_sub(1, SeqCst); }
            self.par.kids.swap_remove(i);
        }
    }

    fn work_loop(&mut self) {
        let sh = self.par.sh.unwrap();
        while let Some(mut s) = self.work.pop() {
            if sh.stop.load(SeqCst) == 0 {
                if sh.fails.load(SeqCst) >= self.par.max_fail { sh.stop.store(2, SeqCst); }
                if sh.paths.load(SeqCst) >= self.par.max_paths { sh.stop.store(3, SeqCst); }
            }
            let why = sh.stop.load(SeqCst);
            if why != 0 {
                self.work.clear();
                if why != 2 { let m = if why == 1 { "time budget exhausted" } else { "path budget exhausted" }; self.record(&s, Stop::Incomplete(m.into()), 0.0); }
                break;
            }
            let t = Instant::now();
            let st = self.run(&mut s);
            self.record(&s, st, t.elapsed().as_secs_f64());
        }
        // results of this process
        sh.active.fetch_sub(1, SeqCst);
        self.reap(true);
        let pid = unsafe { getpid() };
        let mut o = String::new();
        for l in &self.par.res.lines { o.push_str(l); o.push('\n'); }
        if self.par.dead_kids > 0 { o.push_str(&format!("{{\"t\":\"incomplete\",\"h\":\"\",\"kind\":\"worker\",\"id\":0,\"msg\":\"{} worker processes died\",\"at\":\"\",\"inputs\":[],\"obs\":[]}}\n", self.par.dead_kids)); }
        for (h, p) in &self.par.res.per {
            let r: Vec<String> = p.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
            o.push_str(&format!("{{\"t\":\"stats\",\"h\":{},\"done\":{},\"infeasible\":{},\"panics\":{},\"fails\":{},\"incomplete\":{},\"steps\":{},\"asserts\":{},\"maxdepth\":{},\"maxpc\":{},\"time\":{:.3},\"reached\":{{{}}}}}\n",
                js(&self.par.names[*h as usize]), p.done, p.infeasible, p.panics, p.fails, p.incomplete, p.steps, p.asserts, p.maxdepth, p.maxpc, p.time, r.join(",")));
        }
        let st = &self.sv.st;
        o.push_str(&format!("{{\"t\":\"engine\",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"insts\":{},\"forks\":{},\"checks_const\":{},\"checks_solver\":{},\"nodes\":{},\"z3\":{}}}\n",
            st.queries, st.sat, st.unsat, st.unknown, st.time, st.max_time, self.insts, self.forks, self.checks_const, self.checks_solver, count(), js(&Solver::version())));
        let mut by: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for (k, _) in &self.blocks_hit { by.entry(k.0).or_default().push(k.1); }
        for (f, mut b) in by {
            b.sort();
            let ent = &self.pr.fns[f as usize];
            let n = if ent.pretty.is_empty() { ent.name.clone() } else { ent.pretty.clone() };
            if !n.contains("frozen_collections") { continue; }
            let tot = match &ent.body { crate::ll::FnBody::Parsed(p) => p.blocks.len(), _ => 0 };
            let b: Vec<String> = b.iter().map(|x| x.to_string()).collect();
            o.push_str(&format!("{{\"t\":\"cov\",\"fn\":{},\"sym\":{},\"calls\":{},\"total\":{},\"blocks\":[{}]}}\n", js(&n), js(&ent.name), self.funcs_hit.get(&f).unwrap_or(&0), tot, b.join(",")));
        }
        let path = format!("{}/r{}.jsonl", self.par.dir, pid);
        let ok = std::fs::write(&path, o).is_ok();
        if !self.par.root { unsafe { _exit(if ok { 0 } else { 4 }) } }
    }
}

pub fn main() -> i32 {
    let mut lls = vec![];
    let mut hs: Vec<String> = vec![];
    let (mut jobs, mut out, mut dir) = (8i64, String::new(), String::new());
    let (mut max_time, mut max_paths, mut max_fail, mut max_steps, mut rlimit) = (600u64, 1i64 << 40, 8i64, 200_000_000u64, 2_000_000_000u32);
    let (mut sample_mod, mut max_samples, mut seed, mut sip) = (16u64, 3usize, 1u64, true);
    let mut list = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--h" => hs.push(v()),
            "--jobs" => jobs = v().parse().unwrap(),
            "--out" => out = v(),
            "--dir" => dir = v(),
            "--max-time" => max_time = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-fail" => max_fail = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--rlimit" => rlimit = v().parse().unwrap(),
            "--sample-mod" => sample_mod = v().parse().unwrap(),
            "--max-samples" => max_samples = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--real-sip" => sip = false,
            "--list" => list = true,
            _ => lls.push(a),
        }
    }
    let t0 = Instant::now();
    let mut pr = Program::new();
    for l in &lls { if let Err(e) = pr.load(l) { eprintln!("cannot load {}: {}", l, e); return 3; } }
    let tl = t0.elapsed().as_secs_f64();
    if list { return 0; }
    let sh = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    sh.active.store(1, SeqCst);
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).ok();
    let mut en = Engine::new(pr, rlimit);
    en.max_steps = max_steps;
    en.sip_zero = sip;
    en.par = Par { sh: Some(sh), jobs, dir: dir.clone(), names: hs.clone(), root: true, max_fail, max_paths, deadline: Some(t0 + Duration::from_secs(max_time)), sample_mod, max_samples, seed, ..Default::default() };
    for (i, h) in hs.iter().enumerate().rev() {
        match en.start(h) {
            Ok(mut s) => { s.h = i as u32; en.work.push(s); }
            Err(e) => { eprintln!("{}: {:?}", h, e); return 3; }
        }
    }
    en.work_loop();
    let mut all = format!("{{\"t\":\"run\",\"load_s\":{:.3},\"wall_s\":{:.3},\"stop\":{}}}\n", tl, t0.elapsed().as_secs_f64(), sh.stop.load(SeqCst));
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for f in rd.flatten() {
            let n = f.file_name().to_string_lossy().into_owned();
            if n.starts_with('r') && n.ends_with(".jsonl") { if let Ok(t) = std::fs::read_to_string(f.path()) { all.push_str(&t); } std::fs::remove_file(f.path()).ok(); }
        }
    }
    if out.is_empty() { print!("{}", all); } else { std::fs::write(&out, all).unwrap(); }
    0
}
