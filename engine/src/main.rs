mod env;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod val;

use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map_json(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
}

fn result_json(ex: &Exec, wall: f64) -> String {
    let mut fns: BTreeMap<String, u64> = BTreeMap::new();
    let mut total = 0u64;
    for (i, f) in ex.m.fns.iter().enumerate() {
        let code = unsafe { &*f.code.get() };
        if let Some(c) = code {
            if c.icount.get() > 0 {
                total += 1;
                *fns.entry(ex.pretty(i as u32)).or_default() += c.icount.get();
            }
        }
    }
    let s = &ex.stats;
    let v: Vec<String> = ex
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"id\":{},\"inputs\":{{{}}},\"trace\":[{}]}}",
                esc(&v.id),
                v.inputs.iter().map(|(n, x)| format!("{}:{}", esc(n), x)).collect::<Vec<_>>().join(","),
                v.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let viol_ids: BTreeMap<String, u64> = ex.viol_ids.iter().map(|(k, v)| (k.clone(), *v as u64)).collect();
    let so = &ex.solver;
    format!(
        "{{\"paths\":{},\"forks\":{},\"infeasible\":{},\"steps\":{},\"asserts\":{},\"asserts_sym\":{},\"bad\":{},\"stopped\":{},\"bad_msgs\":{},\"covers\":{},\"assert_ids\":{},\"viol_ids\":{},\"violations\":[{}],\"samples\":[{}],\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"wall\":{:.3},\"nfuncs\":{},\"functions\":{},\"fork_prof\":{},\"step_prof\":{}}}",
        s.paths, s.forks, s.infeasible, s.steps, s.asserts, s.asserts_sym, s.bad, s.stopped,
        map_json(&s.bad_msgs), map_json(&s.covers), map_json(&s.assert_ids), map_json(&viol_ids),
        v.join(","),
        ex.samples.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","),
        so.queries, so.cache_hits, so.sat, so.unsat, so.unknown, so.time, so.max_time, wall, total, map_json(&fns),
        map_json(&ex.fork_prof.iter().map(|(k, v)| (k.clone(), *v)).collect()),
        map_json(&ex.step_prof.iter().map(|(k, v)| (k.clone(), *v)).collect())
    )
}

use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
struct Shared {
    free: AtomicIsize,
    parts: AtomicUsize,
    viol: AtomicUsize,
}
struct Par {
    shared: *const Shared,
    me: usize,
    kids: Vec<i32>,
    last: Option<std::time::Instant>,
}
static mut PAR: Par = Par { shared: std::ptr::null(), me: 0, kids: Vec::new(), last: None };

/// If a slot is free and there is work to spare: fork, the child takes the
/// oldest open state. True in the child.
#[allow(static_mut_refs)]
fn split(ex: &mut Exec) -> bool {
    if ex.work.len() < 2 {
        return false;
    }
    unsafe {
        let sh = &*PAR.shared;
        if sh.free.load(SeqCst) <= 0 || PAR.last.unwrap().elapsed().as_millis() < 10 {
            return false;
        }
        if sh.free.fetch_sub(1, SeqCst) <= 0 {
            sh.free.fetch_add(1, SeqCst);
            return false;
        }
        PAR.last = Some(std::time::Instant::now());
        let id = sh.parts.fetch_add(1, SeqCst) + 1;
        let _ = std::io::stdout().flush();
        let pid = fork();
        if pid < 0 {
            eprintln!("ENGINE-ERROR fork failed");
            _exit(2);
        }
        if pid > 0 {
            ex.work.remove(0);
            PAR.kids.push(pid);
            return false;
        }
        PAR.me = id;
        PAR.kids = Vec::new();
        PAR.last = Some(std::time::Instant::now());
        let s = ex.work.remove(0);
        ex.work.clear();
        ex.work.push(s);
        ex.stats = Default::default();
        let s = &mut ex.solver;
        s.queries = 0;
        s.cache_hits = 0;
        s.sat = 0;
        s.unsat = 0;
        s.unknown = 0;
        s.time = 0.0;
        ex.viol.clear();
        ex.nviol = 0;
        ex.samples.clear();
        ex.fork_prof.clear();
        ex.step_prof.clear();
    }
    true
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut jobs = 1usize;
    let mut time = 3600.0f64;
    let mut out = String::new();
    let mut fix = HashMap::new();
    let mut input = None;
    let mut trace = false;
    let mut profile = false;
    let mut max_viol = 2;
    let mut stop_viol = 0usize;
    let mut qt = 60000u32;
    let mut steps = 400_000_000u64;
    let mut list = false;
    let mut mem_gb = 0u64;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("arg");
        match a.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--fix" => {
                let s = nx();
                let (n, r) = s.rsplit_once('=').unwrap();
                let (l, h) = r.split_once("..").unwrap_or((r, r));
                fix.insert(n.to_string(), (l.parse().unwrap(), h.parse().unwrap()));
            }
            "--input" => input = Some(nx()),
            "--trace" => trace = true,
            "--profile" => profile = true,
            "--stop-viol" => stop_viol = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--query-ms" => qt = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--mem-gb" => mem_gb = nx().parse().unwrap(),
            "--list" => list = true,
            o => {
                eprintln!("ENGINE-ERROR unknown arg {o}");
                std::process::exit(2)
            }
        }
    }
    if mem_gb > 0 {
        let l = [mem_gb << 30, mem_gb << 30];
        unsafe {
            setrlimit(9, &l);
        }
    }
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    if list {
        for f in &m.fns {
            if f.name.starts_with("h_") {
                println!("{}", f.name);
            }
        }
        for e in &m.exts {
            if env::builtin(e).is_none() {
                println!("unsupported-ext {e}");
            }
        }
        return;
    }
    // run on a big stack: expression recursion
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let mut ex = Exec::new(m, qt);
            ex.trace = trace;
            ex.profile = profile;
            ex.max_viol = max_viol;
            ex.step_limit = steps;
            ex.fix = fix;
            ex.deadline = t0 + std::time::Duration::from_secs_f64(time);
            if let Some(f) = input {
                let mut mp = HashMap::new();
                for l in std::fs::read_to_string(f).unwrap().lines() {
                    if let Some((n, v)) = l.rsplit_once('=') {
                        mp.insert(n.to_string(), v.parse().unwrap());
                    }
                }
                ex.concrete = Some(mp);
            }
            let st = ex.initial(&entry);
            ex.work.push(st);
            if jobs > 1 {
                unsafe {
                    let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
                    PAR.shared = p as *const Shared;
                    (*PAR.shared).free.store(jobs as isize - 1, SeqCst);
                    PAR.last = Some(std::time::Instant::now());
                }
                ex.split = Some(split);
            }
            while let Some(s) = ex.work.pop() {
                ex.run_path(s);
                if jobs > 1 {
                    split(&mut ex);
                    let v = unsafe { &(*PAR.shared).viol };
                    if ex.nviol > 0 {
                        v.fetch_add(ex.nviol, SeqCst);
                        ex.nviol = 0;
                    }
                    if stop_viol > 0 && v.load(SeqCst) >= stop_viol {
                        ex.stats.stopped += ex.work.len() as u64;
                        ex.work.clear();
                    }
                }
            }
            let (me, n) = unsafe {
                if jobs > 1 {
                    (*PAR.shared).free.fetch_add(1, SeqCst);
                }
                (PAR.me, PAR.kids.len())
            };
            std::fs::write(format!("{out}.part{me}"), result_json(&ex, t0.elapsed().as_secs_f64())).unwrap();
            for k in 0..n {
                let mut st = 0;
                unsafe { waitpid(PAR.kids[k], &mut st, 0) };
                if st != 0 {
                    eprintln!("ENGINE-ERROR worker status {st}");
                    let _ = std::io::stdout().flush();
                    unsafe { _exit(2) };
                }
            }
            if me > 0 {
                let _ = std::io::stdout().flush();
                unsafe { _exit(0) };
            }
            let total = if jobs > 1 { unsafe { (*PAR.shared).parts.load(SeqCst) } } else { 0 };
            let parts: Vec<String> = (0..=total).map(|k| format!("{out}.part{k}")).collect();
            let mut js = String::from("[");
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    js.push(',');
                }
                js.push_str(&std::fs::read_to_string(p).unwrap());
                let _ = std::fs::remove_file(p);
            }
            js.push(']');
            std::fs::write(&out, js).unwrap();
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("ENGINE-ERROR internal panic");
        std::process::exit(2);
    }
}
