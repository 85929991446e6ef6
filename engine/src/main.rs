//! symex: bounded symbolic execution of rustc-emitted LLVM IR with an SMT back end.
//!
//! usage: symex IR.ll JOBS OUT.json [threads]
//! JOBS: one job per line: id function param,param,... key=value...

mod exec;
mod expr;
mod hashes;
mod ir;
mod linear;
mod solver;

use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// does this (v0-mangled) symbol belong to the crate under test?
pub fn in_target(n: &str) -> bool {
    n.contains("10stun_codec")
}

/// crude v0 demangling: the identifiers in order
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // possible disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 20 && (i == 0 || b[i - 1] == b'C' || b[i - 1] == b'M' || b[i - 1] == b'X' || b[i - 1] == b't' || b[i - 1] == b'v') {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 && b[j..j + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.retain(|s| s != "core" && s != "alloc" && s != "std");
    out.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job {
    id: String,
    func: String,
    params: Vec<u64>,
    opts: HashMap<String, String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symex IR.ll JOBS OUT.json [threads]");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let m = Arc::new(ir::Module::load(&args[1]));
    let jobs: Vec<Job> = std::fs::read_to_string(&args[2])
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut it = l.split_whitespace();
            let id = it.next().unwrap().to_string();
            let func = it.next().unwrap().to_string();
            let params = match it.next() {
                Some("-") | None => vec![],
                Some(p) => p.split(',').map(|x| x.parse().unwrap()).collect(),
            };
            let opts = it.filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            Job { id, func, params, opts }
        })
        .collect();
    let threads: usize = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
    let verbose = std::env::var("SYMEX_VERBOSE").is_ok();
    let next = Arc::new(Mutex::new(0usize));
    // whole-run budget; nothing new is started and nothing goes on once it is spent
    let end = t0 + Duration::from_secs(args.get(5).and_then(|x| x.parse().ok()).unwrap_or(100_000));
    let out: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let jobs = Arc::new(jobs);
    std::thread::spawn(|| {
        let num = |f: &str, k: &str| -> Option<u64> { std::fs::read_to_string(f).ok()?.lines().find(|l| l.starts_with(k))?.split_whitespace().nth(1)?.parse().ok() };
        let cap = std::env::var("SYMEX_MEM_MB").ok().and_then(|x| x.parse().ok()).unwrap_or(16_000u64) << 10;
        let cap = cap.min(num("/proc/meminfo", "MemTotal:").unwrap_or(u64::MAX) / 2);
        let mut quiet = 0;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            // the property is refuted: what still runs is not worth waiting for
            if exec::FOUND.lock().unwrap().1.map_or(false, |t| t.elapsed() > Duration::from_secs(60)) {
                exec::STOP.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            let rss = num("/proc/self/status", "VmRSS:").unwrap_or(0);
            // after a job was given up its memory takes a while to be returned
            if quiet > 0 && rss < cap * 3 / 2 {
                quiet -= 1;
            } else if rss > cap && !exec::SHORT.swap(true, std::sync::atomic::Ordering::Relaxed) {
                quiet = 25;
            }
        }
    });
    let mut hs = vec![];
    for t in 0..threads.min(jobs.len()).max(1) {
        let (m, next, out, jobs) = (m.clone(), next.clone(), out.clone(), jobs.clone());
        hs.push(
            std::thread::Builder::new()
                .name(format!("w{}", t))
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let i = {
                        let mut n = next.lock().unwrap();
                        let i = *n;
                        *n += 1;
                        i
                    };
                    if i >= jobs.len() {
                        break;
                    }
                    let j = &jobs[i];
                    if Instant::now() > end || exec::STOP.load(std::sync::atomic::Ordering::Relaxed) {
                        out.lock().unwrap().push((i, format!("{{\"id\":{},\"func\":{},\"error\":\"not run\"}}", js(&j.id), js(&j.func))));
                        continue;
                    }
                    let num = |k: &str, d: u64| j.opts.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
                    let cfg = exec::Cfg {
                        max_paths: num("paths", 5_000_000),
                        max_steps: num("steps", 200_000_000),
                        slot: t,
                        deadline: end.min(Instant::now() + Duration::from_secs(num("time", 600))),
                        known: num("known", 0) != 0,
                        max_sites: num("sites", 40) as usize,
                        samples: num("samples", 6) as usize,
                        real_fmt: j.opts.get("fmt").map(|x| x == "real").unwrap_or(false),
                        solver_ms: num("solver_ms", 60_000) as u32,
                    };
                    let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut x = exec::Exec::new(&m, j.params.clone(), cfg);
                        if let Ok(d) = std::env::var("SYMEX_DUMP") {
                            x.z.dump = Some(d);
                        }
                        x.run(&j.func);
                        if verbose {
                            eprintln!("[{}] paths {} forks {} steps {} queries {} ({:.1}s, cached {}) exprs {} wall {:.1}s viol {:?} err {:?}", j.id, x.rep.paths, x.rep.forks, x.rep.steps, x.rep.solver.queries, x.rep.solver.time, x.rep.solver.cached, x.rep.exprs, x.rep.wall, x.rep.viol_count, x.rep.error);
                        }
                        if x.profile {
                            let mut v: Vec<_> = x.rep.fork_sites.iter().collect();
                            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                            for (k, n) in v.iter().take(25) {
                                eprintln!("  fork {:8} {}", n, k);
                            }
                        }
                        {
                            let f = exec::FOUND.lock().unwrap();
                            if f.0 >= 8 || f.1.map_or(false, |t| t.elapsed() > Duration::from_secs(90)) {
                                exec::STOP.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                        report(&m, j, &x.rep)
                    })) {
                        Ok(s) => s,
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            format!("{{\"id\":{},\"func\":{},\"error\":{}}}", js(&j.id), js(&j.func), js(&format!("engine panic: {}", msg)))
                        }
                    };
                    exec::WEIGHT[t % exec::WEIGHT.len()].store(0, std::sync::atomic::Ordering::Relaxed);
                    out.lock().unwrap().push((i, s));
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut o = out.lock().unwrap();
    o.sort_by_key(|x| x.0);
    let body: Vec<String> = o.iter().map(|x| x.1.clone()).collect();
    let s = format!("{{\"wall\":{:.3},\"jobs\":[\n{}\n]}}\n", t0.elapsed().as_secs_f64(), body.join(",\n"));
    std::fs::write(&args[3], s).unwrap();
}

fn report(m: &ir::Module, j: &Job, r: &exec::Report) -> String {
    let map = |x: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", x.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"site\":{},\"detail\":{},\"faithful\":{},\"script\":{}}}",
                js(&v.site),
                js(&v.detail),
                v.faithful,
                match &v.script {
                    Some(s) => js(s),
                    None => "null".into(),
                }
            )
        })
        .collect();
    let samples: Vec<String> = r.samples.iter().map(|s| format!("{{\"script\":{},\"outs\":[{}],\"panic\":{}}}", js(&s.script), s.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), s.panic)).collect();
    let errs: Vec<String> = r.errors.iter().map(|(e, s)| format!("{{\"error\":{},\"script\":{}}}", js(e), js(s))).collect();
    let fns: Vec<String> = r.fns.iter().map(|i| m.fns[*i as usize].name.as_str()).filter(|n| in_target(n)).map(js).collect();
    format!(
        "{{\"id\":{},\"func\":{},\"params\":[{}],\"error\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"checks\":{},\"check_sites\":{},\"covers\":{},\"viol_count\":{},\"violations\":[{}],\"samples\":[{}],\"errors\":[{}],\"functions\":[{}],\"nfunctions\":{},\"exprs\":{},\"uf_nodes\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"linear\":{},\"solver_s\":{:.4},\"solver_max_s\":{:.4},\"wall\":{:.3}}}",
        js(&j.id),
        js(&j.func),
        j.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        match &r.error {
            Some(e) => js(e),
            None => "null".into(),
        },
        r.paths,
        r.infeasible,
        r.forks,
        r.merges,
        r.steps,
        r.checks,
        map(&r.check_sites),
        map(&r.covers),
        map(&r.viol_count),
        viol.join(","),
        samples.join(","),
        errs.join(","),
        fns.join(","),
        r.fns.len(),
        r.exprs,
        r.uf_nodes,
        r.solver.queries,
        r.solver.sat,
        r.solver.unsat,
        r.solver.unknown,
        r.solver.cached,
        r.solver.linear,
        r.solver.time,
        r.solver.max_time,
        r.wall
    )
}
