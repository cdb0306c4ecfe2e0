//! symex: exhaustive symbolic execution of LLVM IR with z3 deciding every branch and assertion.

mod compile;
mod dbg;
mod exec;
mod expr;
mod ir;
mod libc;
mod mem;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Violation {
    msg: String,
    kind: String,
    model: Vec<u128>,
    widths: Vec<u32>,
    trace: Vec<String>,
}

#[derive(Default)]
struct Totals {
    paths: u64,
    dead: u64,
    requeued: u64,
    limits: u64,
    steps: u64,
    checks: u64,
    checks_symbolic: u64,
    max_inputs: usize,
    max_decisions: usize,
    covers: BTreeMap<u32, u64>,
    violations: Vec<Violation>,
    unknowns: Vec<String>,
    engine_errors: Vec<String>,
    samples: Vec<(Vec<(u32, u128)>, Vec<u64>)>,
    seen_samples: u64,
    forks: BTreeMap<(u32, u32), u64>,
    limit_msgs: Vec<String>,
}

struct Queue {
    jobs: Vec<Job>,
    active: usize,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut args: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let v = it.next().unwrap_or_default();
        args.insert(a.trim_start_matches("--").to_string(), v);
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: u64| args.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let text = std::fs::read_to_string(get("ir", "")).expect("cannot read IR");
    let module = ir::parse_module(&text);
    drop(text);
    let prog = compile::Prog::new(module);
    let kinds = classify(&prog);
    let entries: Vec<String> = get("entry", "harness_main").split(',').map(|s| s.to_string()).collect();
    let parse_s = t0.elapsed().as_secs_f64();
    let mut all = vec![];
    let mut rc = 0;
    for e in &entries {
        let (j, r) = explore(&prog, &kinds, e, &get, &num, parse_s);
        all.push(j);
        rc = rc.max(r);
    }
    let out = format!("[{}]\n", all.join(",\n"));
    if let Some(p) = args.get("out") {
        std::fs::write(p, out).unwrap();
    } else {
        println!("{}", out);
    }
    if num("profile", 0) > 0 {
        profile(&prog);
    }
    std::process::exit(rc);
}

fn profile(prog: &compile::Prog) {
    let mut v: Vec<(u64, &str)> = prog.cfns.iter().filter_map(|c| c.get()).map(|c| (c.calls_made.load(Ordering::Relaxed), c.name.as_str())).collect();
    v.sort();
    v.reverse();
    for (n, f) in v.iter().take(25) {
        eprintln!("{:>12} calls  {}", n, dbg::short(f));
    }
}

fn explore(prog: &compile::Prog, kinds: &[FnKind], entry: &str, get: &dyn Fn(&str, &str) -> String, num: &dyn Fn(&str, u64) -> u64, parse_s: f64) -> (String, i32) {
    let t0 = Instant::now();
    let fidx = *prog.m.fn_index.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
    let nthreads = num("threads", 8) as usize;
    let time = num("time", 600);
    let max_paths = num("max-paths", u64::MAX);
    let max_samples = num("samples", 40) as usize;
    let max_steps = num("max-steps", 60_000_000);
    let table_max = num("table-max", 300) as usize;
    let max_viol = num("max-violations", 3) as usize;
    let collect = num("forks", 0) > 0;
    let mut shared0 = solver::Shared::new(num("solver-ms", 20000) as u32, num("dump-queries", 0) as usize);
    shared0.dump_every = num("dump-every", 1);
    let shared = shared0;
    let init = match get("seed", "").as_str() {
        "" => vec![],
        s => s.split(',').map(|x| x.parse().unwrap()).collect(),
    };
    let q = Mutex::new(Queue { jobs: vec![Job { prefix: vec![], model: init }], active: 0 });
    let cv = Condvar::new();
    let totals = Mutex::new(Totals::default());
    let stop = AtomicBool::new(false);
    let incomplete = AtomicBool::new(false);
    let npaths = AtomicU64::new(0);
    let first_viol: Mutex<Option<Instant>> = Mutex::new(None);
    let deadline = t0 + Duration::from_secs(time);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut m = Machine::new(prog, &shared, kinds, Limits { max_steps, table_max });
                    m.collect_forks = collect;
                    let mut local = Totals::default();
                    loop {
                        let job = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                if let Some(j) = g.jobs.pop() {
                                    g.active += 1;
                                    break Some(j);
                                }
                                if g.active == 0 {
                                    break None;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                        };
                        let job = match job {
                            Some(j) => j,
                            None => {
                                cv.notify_all();
                                break;
                            }
                        };
                        let r = m.run(fidx, job);
                        local.steps += m.steps;
                        local.checks += m.checks;
                        local.checks_symbolic += m.checks_symbolic;
                        m.checks = 0;
                        m.checks_symbolic = 0;
                        local.max_inputs = local.max_inputs.max(m.widths.len());
                        local.max_decisions = local.max_decisions.max(m.trace.len());
                        for u in m.unknowns.drain(..) {
                            local.unknowns.push(u);
                        }
                        match r {
                            Stop::Done => {
                                local.paths += 1;
                                for c in &m.covers {
                                    *local.covers.entry(*c).or_insert(0) += 1;
                                }
                                let n = npaths.fetch_add(1, Ordering::Relaxed) + 1;
                                if n >= max_paths {
                                    incomplete.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                }
                                // reservoir sample
                                local.seen_samples += 1;
                                let k = local.seen_samples;
                                let h = k.wrapping_mul(0x9E3779B97F4A7C15) >> 33;
                                let share = (max_samples + nthreads - 1) / nthreads;
                                let sample = || (m.widths.iter().copied().zip(m.model_now()).collect::<Vec<_>>(), m.obs.clone());
                                if local.samples.len() < share {
                                    local.samples.push(sample());
                                } else if share > 0 {
                                    let j = (h % k) as usize;
                                    if j < share {
                                        local.samples[j] = sample();
                                    }
                                }
                            }
                            Stop::Dead => local.dead += 1,
                            Stop::Requeued => local.requeued += 1,
                            Stop::Limit(msg) => {
                                local.limits += 1;
                                let mut t = totals.lock().unwrap();
                                if t.limit_msgs.len() < 3 {
                                    let msg = format!("{}: inputs {:?}; {}", msg, m.model_now(), m.backtrace().join(" < "));
                                    t.limit_msgs.push(msg.clone());
                                    t.violations.push(Violation { msg, kind: "limit".into(), model: m.model_now(), widths: m.widths.clone(), trace: m.backtrace() });
                                }
                                stop.store(true, Ordering::Relaxed);
                                incomplete.store(true, Ordering::Relaxed);
                            }
                            Stop::Engine(msg) => {
                                let msg = format!("{} at {}", msg, m.backtrace().join(" < "));
                                local.engine_errors.push(msg);
                                stop.store(true, Ordering::Relaxed);
                                incomplete.store(true, Ordering::Relaxed);
                            }
                            Stop::Violation { msg, model, trace, kind } => {
                                let mut t = totals.lock().unwrap();
                                if !t.violations.iter().any(|v| v.msg == msg) {
                                    t.violations.push(Violation { msg, kind: kind.into(), model, widths: m.widths.clone(), trace });
                                    first_viol.lock().unwrap().get_or_insert(Instant::now());
                                    if t.violations.len() >= max_viol {
                                        stop.store(true, Ordering::Relaxed);
                                        incomplete.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        let now = Instant::now();
                        if now > deadline {
                            stop.store(true, Ordering::Relaxed);
                            incomplete.store(true, Ordering::Relaxed);
                        }
                        if let Some(f) = *first_viol.lock().unwrap() {
                            if now > f + Duration::from_secs(3) {
                                stop.store(true, Ordering::Relaxed);
                                incomplete.store(true, Ordering::Relaxed);
                            }
                        }
                        {
                            let mut g = q.lock().unwrap();
                            g.active -= 1;
                            g.jobs.append(&mut m.new_jobs);
                        }
                        cv.notify_all();
                    }
                    let mut t = totals.lock().unwrap();
                    t.paths += local.paths;
                    t.dead += local.dead;
                    t.requeued += local.requeued;
                    t.limits += local.limits;
                    t.steps += local.steps;
                    t.checks += local.checks;
                    t.checks_symbolic += local.checks_symbolic;
                    t.max_inputs = t.max_inputs.max(local.max_inputs);
                    t.max_decisions = t.max_decisions.max(local.max_decisions);
                    t.unknowns.extend(local.unknowns);
                    t.engine_errors.extend(local.engine_errors);
                    t.samples.extend(local.samples);
                    for (k, v) in local.covers {
                        *t.covers.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in m.forks.drain() {
                        *t.forks.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let t = totals.into_inner().unwrap();
    let pending = q.into_inner().unwrap().jobs.len();
    let st = &shared.stats;
    let ld = |a: &AtomicU64| a.load(Ordering::Relaxed);
    if collect {
        let mut v: Vec<_> = t.forks.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.iter().take(30) {
            let cf = prog.get(*f as usize);
            let l = dbg::chain(&prog.m.meta, cf.dbg[(*pc as usize).saturating_sub(1)]);
            eprintln!("{:>8} forks  {} :: {}", n, dbg::short(&cf.name), l.join(" < "));
        }
    }
    // functions and lines reached
    let mut funcs: BTreeMap<String, (u32, std::collections::BTreeSet<u32>)> = BTreeMap::new();
    let mut nfun = 0;
    let mut ninstr = 0usize;
    for cf in prog.cfns.iter().filter_map(|c| c.get()) {
        if cf.calls_made.load(Ordering::Relaxed) == 0 {
            continue;
        }
        nfun += 1;
        let mut seen = std::collections::HashSet::new();
        for (bi, (a, b)) in cf.blocks.iter().enumerate() {
            if cf.cov[bi].load(Ordering::Relaxed) == 0 {
                continue;
            }
            ninstr += (*b - *a) as usize;
            for d in &cf.dbg[*a as usize..*b as usize] {
                if *d != 0 && seen.insert(*d) {
                    for l in dbg::resolve(&prog.m.meta, *d) {
                        let e = funcs.entry(format!("{}|{}|{}", l.file, l.name, if l.linkage.is_empty() { "" } else { &l.linkage })).or_insert((l.def_line, Default::default()));
                        if l.line > 0 {
                            e.1.insert(l.line);
                        }
                    }
                }
            }
        }
    }
    let mut j = String::new();
    j.push_str(&format!("{{\"entry\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\"threads\":{}", esc(entry), parse_s, t0.elapsed().as_secs_f64(), nthreads));
    j.push_str(&format!(
        ",\"paths\":{},\"infeasible\":{},\"requeued\":{},\"limits\":{},\"pending\":{},\"exhaustive\":{}",
        t.paths,
        t.dead,
        t.requeued,
        t.limits,
        pending,
        !incomplete.load(Ordering::Relaxed) && t.unknowns.is_empty() && t.engine_errors.is_empty()
    ));
    j.push_str(&format!(
        ",\"steps\":{},\"checks\":{},\"checks_symbolic\":{},\"max_inputs\":{},\"max_decisions\":{}",
        t.steps, t.checks, t.checks_symbolic, t.max_inputs, t.max_decisions
    ));
    j.push_str(&format!(
        ",\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3}",
        ld(&st.queries),
        ld(&st.cached),
        ld(&st.sat),
        ld(&st.unsat),
        ld(&st.unknown),
        ld(&st.solver_ns) as f64 / 1e9,
        ld(&st.max_ns) as f64 / 1e9
    ));
    j.push_str(&format!(",\"functions_executed\":{},\"instructions_covered\":{}", nfun, ninstr));
    j.push_str(",\"covers\":{");
    j.push_str(&t.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"unknowns\":[");
    j.push_str(&t.unknowns.iter().take(20).map(|s| esc(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"engine_errors\":[");
    j.push_str(&t.engine_errors.iter().take(5).map(|s| esc(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"violations\":[");
    j.push_str(
        &t.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"msg\":{},\"kind\":{},\"inputs\":[{}],\"trace\":[{}]}}",
                    esc(&v.msg),
                    esc(&v.kind),
                    v.model.iter().zip(&v.widths).map(|(m, w)| format!("[{},\"{}\"]", w, m)).collect::<Vec<_>>().join(","),
                    v.trace.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\"samples\":[");
    j.push_str(
        &t.samples
            .iter()
            .map(|(i, o)| {
                format!(
                    "{{\"inputs\":[{}],\"obs\":[{}]}}",
                    i.iter().map(|(w, m)| format!("[{},\"{}\"]", w, m)).collect::<Vec<_>>().join(","),
                    o.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\"functions\":[");
    j.push_str(
        &funcs
            .iter()
            .filter(|(k, _)| !k.contains("/rustlib/") && !k.starts_with("/rustc/") && !k.starts_with("/rust/"))
            .map(|(k, (dl, lines))| {
                let p: Vec<&str> = k.split('|').collect();
                format!(
                    "{{\"file\":{},\"name\":{},\"symbol\":{},\"line\":{},\"lines\":{}}}",
                    esc(p[0]),
                    esc(p[1]),
                    esc(&dbg::short(p[2])),
                    dl,
                    lines.len()
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("]}");
    if num("dump-queries", 0) > 0 {
        let dir = get("dump-dir", "/tmp/symex-queries");
        let _ = std::fs::create_dir_all(&dir);
        for (i, (t, sat)) in shared.dump.lock().unwrap().iter().enumerate() {
            let _ = std::fs::write(format!("{}/q{:05}-{}.smt2", dir, i, if *sat { "sat" } else { "unsat" }), format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", if *sat { "sat" } else { "unsat" }, t));
        }
    }
    let rc = if !t.violations.is_empty() {
        1
    } else if !t.engine_errors.is_empty() || !t.unknowns.is_empty() {
        2
    } else {
        0
    };
    (j, rc)
}
