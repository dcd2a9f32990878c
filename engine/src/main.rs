//! symx: symbolic execution of LLVM IR with SMT-decided assertions.
mod builtins;
mod exec;
mod ir;
mod lemma;
mod mem;
mod prove;
mod smt;
mod state;
mod term;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Task { f: usize, prefix: Vec<u32> }
struct Shared {
    q: VecDeque<Task>,
    busy: usize,
    res: Vec<FnRes>,
    solver: SmtStats,
}
#[derive(Default, Clone)]
struct FnRes {
    st: Stats,
    tasks: u64,
    tasks_cut: u64,
    tasks_full: u64,
    cut_list: Vec<String>,
    time: f64,
    slow: Vec<(f64, String)>,
}

fn merge(a: &mut Stats, b: &Stats) {
    a.paths += b.paths; a.dead += b.dead; a.cut_budget += b.cut_budget; a.forks += b.forks; a.steps += b.steps;
    a.ob_total += b.ob_total; a.ob_concrete += b.ob_concrete; a.ob_norm += b.ob_norm; a.ob_smt += b.ob_smt; a.ob_unknown += b.ob_unknown; a.ob_tol += b.ob_tol; a.ob_round += b.ob_round;
    a.conc += b.conc; a.timeouts += b.timeouts; a.ncands += b.ncands;
    for (k, v) in &b.cut_unsup { *a.cut_unsup.entry(k.clone()).or_insert(0) += v; }
    for (k, v) in &b.reach { *a.reach.entry(*k).or_insert(0) += v; }
    for (k, v) in &b.asserts { *a.asserts.entry(*k).or_insert(0) += v; }
    for c in &b.cands { if a.cands.len() < 400 { a.cands.push(c.clone()); } }
    for u in &b.unknown_list { if a.unknown_list.len() < 60 { a.unknown_list.push(u.clone()); } }
    a.funcs.extend(b.funcs.iter());
    for x in &b.samples { if a.samples.len() < 24 { a.samples.push(x.clone()); } }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jnums(v: &[f64]) -> String { format!("[{}]", v.iter().map(|x| if x.is_finite() { format!("{:?}", x) } else { format!("\"{}\"", x) }).collect::<Vec<_>>().join(",")) }

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg) -> Exec {
        let n = m.fns.len();
        Exec { m, s: Store::new(), z: Solver::new(), work: vec![], st: Stats::default(), rng: 0x9E3779B97F4A7C15 ^ (cfg.seed.wrapping_mul(0x2545F4914F6CDD1D) | 1), cfg, fcache: HashMap::new(), prefix: vec![], fname: String::new(), fptr: vec![None; n], bi: vec![u32::MAX; n], fseen: vec![false; n], hint: None, hash_consts: vec![0, 1, -1, 2] }
    }
    pub fn base_state(&mut self) -> State {
        let mut mem = Mem::new(GLOBAL_BASE);
        for g in &self.m.globals {
            if g.weak_undef { continue; }
            let sz = g.ty.size().max(1);
            mem.set_valid(g.addr, sz, true);
            if let Some(c) = &g.init {
                let mut b = vec![0u8; sz as usize];
                self.m.const_bytes(&g.ty, c, &mut b);
                if b.iter().any(|x| *x != 0) { mem.write_bytes(g.addr, &b).expect("global init"); }
            }
        }
        State { regs: vec![], frames: vec![], mem, pc: vec![], known: HashMap::new(), defs: vec![], model: Some(std::rc::Rc::new(vec![])), repr: vec![], inputs: vec![], dom: HashMap::new(), bdom: HashMap::new(), steps: 0, notes: vec![], tls: vec![], choices: 0, nonce: 0, bigap: false }
    }
    /// explore one task; returns the number of alternatives when a split point was reached
    fn task(&mut self, base: &State, f: usize, prefix: &[u32]) -> Option<u32> {
        self.s = Store::new();
        self.z.clear();
        self.fcache.clear();
        self.hint = None;
        self.prefix = prefix.to_vec();
        self.fname = self.m.fns[f].name.clone();
        let mut st = base.clone();
        st.steps = 0;
        if let Err(e) = self.push_call(&mut st, f, &[], 0, u32::MAX) { panic!("{:?}", e); }
        self.work = vec![st];
        let mut split = None;
        let mut pops = 0u64;
        while let Some(mut st) = self.work.pop() {
            pops += 1;
            if pops > self.cfg.max_paths || Instant::now() > self.cfg.deadline {
                self.st.cut_budget += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            loop {
                let s0 = st.steps;
                let r = self.run(&mut st);
                self.st.steps += st.steps - s0;
                match r {
                    Stop::Fork(_) if Instant::now() > self.cfg.deadline => {
                        self.st.cut_budget += 1 + self.work.len() as u64;
                        self.work.clear();
                        break;
                    }
                    Stop::Fork(c) => {
                        self.st.forks += 1;
                        if self.cfg.verbose { eprintln!("fork {} @ {}", self.s.show(c).chars().take(200).collect::<String>(), self.trace(&st)); }
                        let nc = self.s.not(c);
                        let mut other = st.clone();
                        let a = self.add_cond(&mut st, c);
                        if a { self.refresh_model(&mut st); }
                        let b = self.add_cond(&mut other, nc);
                        if b { self.refresh_model(&mut other); }
                        match (a, b) {
                            (true, true) => { self.work.push(other); continue; }
                            (true, false) => continue,
                            (false, true) => { st = other; continue; }
                            _ => { self.st.dead += 1; break; }
                        }
                    }
                    Stop::Choice { n, dst, id } => {
                        for i in (0..n).rev() {
                            let mut x = st.clone();
                            x.inputs.push(Input { id, kind: InKind::Const(i as f64) });
                            let fr = x.frames.last().unwrap();
                            let (fb, pc) = (fr.base, fr.pc);
                            let f = fr.f;
                            let Inst::Call(ci) = &f.code[pc as usize] else { panic!() };
                            let _ = (fb, dst);
                            self.finish(&mut x, ci, &[V::c(i as u64)]);
                            self.work.push(x);
                        }
                        break;
                    }
                    Stop::Split(n) => { split = Some(n); break; }
                    Stop::Dead => { self.st.dead += 1; break; }
                    Stop::Done => {
                        self.st.paths += 1;
                        if self.st.samples.len() < 2 { self.refresh_model(&mut st); if let Some(m) = st.model.clone() { let v = self.input_values(&st, &m); self.st.samples.push((st.notes.clone(), v)); } }
                        break;
                    }
                    Stop::Panic(m) => { self.st.paths += 1; self.path_failure(&mut st, "panic", m); break; }
                    Stop::Bug(m) => { self.st.paths += 1; self.path_failure(&mut st, "bug", m); break; }
                    Stop::Budget => { self.st.cut_budget += 1; let m = format!("step limit in {}", self.trace(&st)); self.path_failure(&mut st, "budget", m); break; }
                    Stop::Unsup(m) => {
                        let m: String = format!("{} [{}]", m.chars().take(160).collect::<String>(), self.trace(&st).chars().take(200).collect::<String>());
                        if self.st.cut_unsup.len() < 200 || self.st.cut_unsup.contains_key(&m) { *self.st.cut_unsup.entry(m).or_insert(0) += 1; } else { *self.st.cut_unsup.entry("other".into()).or_insert(0) += 1; }
                        break;
                    }
                }
            }
        }
        split
    }
}

fn main() {
    if std::env::var("SYMX_V").is_err() { std::panic::set_hook(Box::new(|i| { eprintln!("engine panic: {}", i.to_string().chars().take(200).collect::<String>()) })); }
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let num = |k: &str, d: u64| opt(k).map(|x| x.parse::<u64>().unwrap()).unwrap_or(d);
    let irf = opt("--ir").expect("--ir");
    let fns: Vec<String> = opt("--fn").expect("--fn").split(',').map(|s| s.to_string()).collect();
    let threads = num("--threads", 8) as usize;
    let t0 = Instant::now();
    let total = Duration::from_secs(num("--time", 600));
    let cfg = Cfg { max_steps: num("--max-steps", 40_000_000), max_paths: num("--max-paths", 200_000), conc_limit: 64, ob_timeout: num("--ob-ms", 3000), br_timeout: num("--br-ms", 800), deadline: t0 + total, verbose: args.iter().any(|a| a == "-v"), opaque: !args.iter().any(|a| a == "--real-special"), one_way: args.iter().any(|a| a == "--one-way"), seed: num("--seed", 1), generic: args.iter().any(|a| a == "--generic-reals" || a == "--generic-hash"), generic_all: args.iter().any(|a| a == "--generic-hash") };
    let task_time = Duration::from_secs(num("--task-time", 60));
    let src = std::fs::read_to_string(&irf).expect("ir");
    let m: &'static Module = Box::leak(Box::new(Module::load(src)));
    eprintln!("loaded {} functions, {} globals in {:?}", m.fns.len(), m.globals.len(), t0.elapsed());
    let fi: Vec<usize> = fns.iter().map(|n| *m.fmap.get(n).unwrap_or_else(|| { eprintln!("no function {}", n); std::process::exit(2) })).collect();
    let mut q = VecDeque::new();
    let pre: Option<Vec<u32>> = opt("--prefix").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    for i in 0..fns.len() { q.push_back(Task { f: i, prefix: pre.clone().unwrap_or_default() }); }
    let fixed = pre.is_some();
    let sh = Arc::new((Mutex::new(Shared { q, busy: 0, res: vec![FnRes::default(); fns.len()], solver: SmtStats::default() }), Condvar::new()));
    let mut hs = vec![];
    for th in 0..threads {
        let sh = sh.clone();
        let fi = fi.clone();
        let cfg = cfg.clone();
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut cfg = cfg;
            cfg.seed = cfg.seed.wrapping_mul(1000).wrapping_add(th as u64);
            let global = cfg.deadline;
            let mut ex = Exec::new(m, cfg);
            let mut base = ex.base_state();
            if let Some(&h) = m.fmap.get("h_init") {
                ex.push_call(&mut base, h, &[], 0, u32::MAX).unwrap();
                match ex.run(&mut base) { Stop::Done => {} e => panic!("h_init: {:?}", e) }
                ex.st = Stats::default();
            }
            loop {
                let task = {
                    let mut g = sh.0.lock().unwrap();
                    loop {
                        if let Some(t) = g.q.pop_front() { g.busy += 1; break Some(t); }
                        if g.busy == 0 { break None; }
                        g = sh.1.wait(g).unwrap();
                    }
                };
                let Some(t) = task else { break };
                let now = Instant::now();
                let mut split = None;
                let mut skipped = false;
                ex.st = Stats::default();
                ex.fseen.iter_mut().for_each(|b| *b = false);
                if now > global { skipped = true; } else {
                    ex.cfg.deadline = global.min(now + task_time);
                    ex.z.deadline = Some(ex.cfg.deadline + Duration::from_secs(5));
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.task(&base, fi[t.f], &t.prefix))) {
                        Ok(x) => split = x,
                        Err(p) => {
                            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            ex.work.clear();
                            ex.z = Solver::new();
                            *ex.st.cut_unsup.entry(format!("engine panic: {}", msg.chars().take(200).collect::<String>())).or_insert(0) += 1;
                        }
                    }
                }
                let el = now.elapsed().as_secs_f64();
                let mut g = sh.0.lock().unwrap();
                g.busy -= 1;
                let r = &mut g.res[t.f];
                r.time += el;
                if skipped { r.tasks_cut += 1; r.tasks += 1; if r.cut_list.len() < 50 { r.cut_list.push(format!("{:?}", t.prefix)); } }
                else if let Some(n) = split {
                    if fixed { eprintln!("{:?} splits into {}", t.prefix, n); }
                    for i in 0..n { let mut p = t.prefix.clone(); p.push(i); g.q.push_back(Task { f: t.f, prefix: p }); }
                } else {
                    r.tasks += 1;
                    let cut = ex.st.cut_budget > 0 || !ex.st.cut_unsup.is_empty();
                    if cut { r.tasks_cut += 1; if r.cut_list.len() < 50 { r.cut_list.push(format!("{:?}", t.prefix)); } } else { r.tasks_full += 1; }
                    r.slow.push((el, format!("{:?}", t.prefix)));
                    r.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                    r.slow.truncate(8);
                    let st = std::mem::take(&mut ex.st);
                    merge(&mut r.st, &st);
                }
                sh.1.notify_all();
            }
            let mut g = sh.0.lock().unwrap();
            let s = &ex.z.stats;
            g.solver.queries += s.queries; g.solver.unsat += s.unsat; g.solver.sat += s.sat; g.solver.unknown += s.unknown; g.solver.cached += s.cached; g.solver.time += s.time;
        }).unwrap());
    }
    let mut failed = false;
    for h in hs { if h.join().is_err() { failed = true; } }
    let g = match sh.0.lock() { Ok(g) => g, Err(e) => e.into_inner() };
    let mut out = String::from("{\n");
    out.push_str(&format!("\"wall\":{:.2},\"engine_failed\":{},\"solver\":{{\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"cached\":{},\"time\":{:.2}}},\n\"functions\":{{", t0.elapsed().as_secs_f64(), failed, g.solver.queries, g.solver.unsat, g.solver.sat, g.solver.unknown, g.solver.cached, g.solver.time));
    for (i, n) in fns.iter().enumerate() {
        let r = &g.res[i];
        let s = &r.st;
        if i > 0 { out.push(','); }
        let map = |m: &BTreeMap<u32, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let mut names: BTreeMap<String, u64> = BTreeMap::new();
        for f in &s.funcs { let nm = &m.fns[*f].name; if nm.contains("symb_anafis") { *names.entry(exec::short_name(nm)).or_insert(0) += 1; } }
        out.push_str(&format!("\n{}:{{\"tasks\":{},\"tasks_full\":{},\"tasks_cut\":{},\"cut_list\":[{}],\"paths\":{},\"dead\":{},\"cut_budget\":{},\"forks\":{},\"steps\":{},\"time\":{:.2},\"obligations\":{},\"ob_concrete\":{},\"ob_norm\":{},\"ob_smt\":{},\"ob_unknown\":{},\"ob_tol\":{},\"ob_round\":{},\"concretizations\":{},\"candidates_total\":{},\"functions_executed\":{},\n \"reach\":{},\"asserts\":{},\n \"cut_unsup\":{{{}}},\n \"unknown\":[{}],\n \"slow\":[{}],\n \"functions\":[{}],\n \"samples\":[{}],\n \"candidates\":[{}]}}",
            js(n), r.tasks, r.tasks_full, r.tasks_cut, r.cut_list.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), s.paths, s.dead, s.cut_budget, s.forks, s.steps, r.time, s.ob_total, s.ob_concrete, s.ob_norm, s.ob_smt, s.ob_unknown, s.ob_tol, s.ob_round, s.conc, s.ncands, s.funcs.len(),
            map(&s.reach), map(&s.asserts),
            s.cut_unsup.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            s.unknown_list.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  "),
            r.slow.iter().map(|x| format!("[{:.2},{}]", x.0, js(&x.1))).collect::<Vec<_>>().join(","),
            names.keys().map(|x| js(x)).collect::<Vec<_>>().join(","),
            s.samples.iter().map(|x| format!("{{\"notes\":[{}],\"inputs\":{}}}", x.0.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), jnums(&x.1))).collect::<Vec<_>>().join(",\n  "),
            s.cands.iter().map(|c| format!("{{\"fn\":{},\"kind\":{},\"id\":{},\"notes\":[{}],\"inputs\":{},\"alts\":[{}],\"msg\":{}}}", js(&c.func), js(&c.kind), c.id, c.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), jnums(&c.inputs), c.alts.iter().map(|a| jnums(a)).collect::<Vec<_>>().join(","), js(&c.msg))).collect::<Vec<_>>().join(",\n  ")));
        eprintln!("{:<28} tasks {}/{} paths {} dead {} cut {}+{} forks {} steps {}M ob {} (conc {} norm {} smt {} unk {} tol {} round {}) cand {} time {:.1}", n, r.tasks_full, r.tasks, s.paths, s.dead, s.cut_budget, s.cut_unsup.values().sum::<u64>(), s.forks, s.steps / 1_000_000, s.ob_total, s.ob_concrete, s.ob_norm, s.ob_smt, s.ob_unknown, s.ob_tol, s.ob_round, s.ncands, r.time);
        for (k, v) in s.cut_unsup.iter().take(12) { eprintln!("    unsup x{}: {}", v, k); }
        for c in s.cands.iter().take(12) { eprintln!("    cand {} {} {:?} {:?} {}", c.kind, c.id, c.notes, c.inputs, c.msg.chars().take(300).collect::<String>()); }
        for u in s.unknown_list.iter().take(6) { eprintln!("    unk {}", u.chars().take(500).collect::<String>()); }
    }
    out.push_str("\n}\n}\n");
    if let Some(o) = opt("--out") { std::fs::write(o, out).unwrap(); }
    eprintln!("wall {:.1}s solver {} queries {:.1}s ({} unsat {} sat {} unknown, {} cached)", t0.elapsed().as_secs_f64(), g.solver.queries, g.solver.time, g.solver.unsat, g.solver.sat, g.solver.unknown, g.solver.cached);
    if failed { std::process::exit(3); }
}
