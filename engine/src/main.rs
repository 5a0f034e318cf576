//! lsx: exhaustive path-wise symbolic execution of LLVM IR with an SMT solver (Z3) as decision procedure.
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Args {
    module: String,
    harnesses: Vec<String>,
    threads: usize,
    out: String,
    total: f64,
    time: f64,
    query_ms: u32,
    solver: String,
    max_steps: u64,
    max_traces: usize,
    dump: Option<String>,
    src_prefix: String,
    verbose: bool,
    audit: bool,
}

fn args() -> Args {
    let mut a = Args {
        module: String::new(),
        harnesses: vec![],
        threads: 8,
        out: String::new(),
        total: 1e9,
        time: 600.0,
        query_ms: 3000,
        solver: "QF_BV".into(),
        max_steps: 20_000_000,
        max_traces: 3000,
        dump: None,
        src_prefix: "/repo/".into(),
        verbose: false,
        audit: false,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let x = v[i].clone();
        let mut val = || {
            i += 1;
            v[i].clone()
        };
        match x.as_str() {
            "--harness" => a.harnesses.extend(val().split(',').map(|s| s.to_string())),
            "--threads" => a.threads = val().parse().unwrap(),
            "--out" => a.out = val(),
            "--total" => a.total = val().parse().unwrap(),
            "--time" => a.time = val().parse().unwrap(),
            "--query-ms" => a.query_ms = val().parse().unwrap(),
            "--solver" => a.solver = val(),
            "--max-steps" => a.max_steps = val().parse().unwrap(),
            "--max-traces" => a.max_traces = val().parse().unwrap(),
            "--dump" => a.dump = Some(val()),
            "--src" => a.src_prefix = val(),
            "-v" => a.verbose = true,
            "--audit" => a.audit = true,
            m => a.module = m.to_string(),
        }
        i += 1;
    }
    a
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct Shared {
    q: Mutex<(Vec<(Vec<u8>, usize)>, usize)>, // stack, active workers
    cv: Condvar,
    stop: AtomicBool,
    timeout: AtomicBool,
    paths: AtomicUsize,
}

struct Res {
    stats: Stats,
    outcomes: BTreeMap<String, u64>,
    violations: Vec<(String, String, Vec<u8>)>,
    inconclusive: BTreeMap<String, u64>,
    traces: Vec<(Vec<u8>, String, u64)>,
    covers: BTreeSet<String>,
    expects: BTreeSet<String>,
    funcs: BTreeSet<(String, String, u32)>,
    lines: BTreeSet<(String, u32)>,
    conc_sites: usize,
    max_input: usize,
}

fn run_harness(m: &ir::Module, img: &Image, spec: &[Special], fi: u32, a: &Args, time: f64) -> Res {
    let lim = Limits { steps: a.max_steps, depth: 12000, stack: 7 << 20, enum_values: 2048 };
    let sh = Shared {
        q: Mutex::new((vec![(vec![], 0)], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        paths: AtomicUsize::new(0),
    };
    let t0 = Instant::now();
    let total = Mutex::new(Res {
        stats: Stats::new(),
        outcomes: BTreeMap::new(),
        violations: vec![],
        inconclusive: BTreeMap::new(),
        traces: vec![],
        covers: BTreeSet::new(),
        expects: BTreeSet::new(),
        funcs: BTreeSet::new(),
        lines: BTreeSet::new(),
        conc_sites: 0,
        max_input: 0,
    });
    let nviol = AtomicUsize::new(0);
    let first: Mutex<Option<f64>> = Mutex::new(None); // when the first counterexample was found
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let (sh, total, nviol, lim, done, first) = (&sh, &total, &nviol, &lim, &done, &first);
        // watchdog: a solver that ignores its own timeout must not keep the check alive
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                if t0.elapsed().as_secs_f64() > time + 60.0 {
                    eprintln!("lsx: watchdog timeout");
                    std::process::exit(75);
                }
            }
        });
        let mut hs = vec![];
        for _ti in 0..a.threads {
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    let z = z3::Z3::new(a.query_ms, &a.solver);
                    let mut w = Worker::new(m, img, spec, lim, z);
                    w.dump_dir = a.dump.clone();
                    w.audit = a.audit;
                    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
                    let mut viols = vec![];
                    let mut traces = vec![];
                    let mut maxin = 0;
                    loop {
                        let item = {
                            let mut g = sh.q.lock().unwrap();
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                if let Some(x) = g.0.pop() {
                                    g.1 += 1;
                                    break Some(x);
                                }
                                if g.1 == 0 {
                                    break None;
                                }
                                g = sh.cv.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
                            }
                        };
                        let Some((inp, bound)) = item else {
                            sh.cv.notify_all();
                            break;
                        };
                        let o = w.run(fi, &inp);
                        maxin = maxin.max(w.nin);
                        *outcomes.entry(o.class().to_string()).or_default() += 1;
                        let full = {
                            let mut x = w.input.clone();
                            x.truncate(w.nin);
                            x
                        };
                        match &o {
                            Outcome::Ok => w.stats.paths += 1,
                            Outcome::Assume => w.stats.assume_paths += 1,
                            Outcome::Panic(msg) | Outcome::Fail(msg) => {
                                w.stats.paths += 1;
                                viols.push((o.class().to_string(), msg.clone(), full.clone()));
                                nviol.fetch_add(1, Ordering::Relaxed);
                            }
                            Outcome::StackOverflow | Outcome::StepLimit | Outcome::Mem(_) => {
                                w.stats.paths += 1;
                                viols.push((o.class().to_string(), o.msg(), full.clone()));
                                nviol.fetch_add(1, Ordering::Relaxed);
                            }
                            Outcome::Unsupported(msg) => {
                                w.inconclusive.push(format!("unsupported: {msg}"));
                            }
                        }
                        if w.decs.len() < bound {
                            w.inconclusive.push("path diverged from its prefix".into());
                        }
                        if !matches!(o, Outcome::Assume | Outcome::Unsupported(_)) && traces.len() < a.max_traces / a.threads + 1 {
                            traces.push((full, o.class().to_string(), w.obs));
                        }
                        let (work, vs) = w.flips(bound);
                        for (msg, mut i) in vs {
                            i.truncate(w.nin.max(1));
                            viols.push(("assert".into(), msg, i));
                            nviol.fetch_add(1, Ordering::Relaxed);
                        }
                        if nviol.load(Ordering::Relaxed) > 0 {
                            first.lock().unwrap().get_or_insert(t0.elapsed().as_secs_f64());
                        }
                        let np = sh.paths.fetch_add(1, Ordering::Relaxed);
                        if a.verbose && np % 2000 == 1999 {
                            let g = sh.q.lock().unwrap();
                            eprintln!("  {} paths, queue {}, {:.1}s", np + 1, g.0.len(), t0.elapsed().as_secs_f64());
                        }
                        {
                            let mut g = sh.q.lock().unwrap();
                            g.0.extend(work);
                            g.1 -= 1;
                            // once there is a counterexample, only a little more time is spent on further ones
                            let t = t0.elapsed().as_secs_f64();
                            let first = first.lock().unwrap();
                            if t > time || first.is_some_and(|f: f64| t > f + 20.0) {
                                sh.timeout.store(true, Ordering::Relaxed);
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                            if nviol.load(Ordering::Relaxed) >= 6 || w.inconclusive.len() > 50 {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        sh.cv.notify_all();
                    }
                    // merge
                    let mut t = total.lock().unwrap();
                    t.stats.add(&w.stats);
                    for (k, v) in outcomes {
                        *t.outcomes.entry(k).or_default() += v;
                    }
                    t.violations.extend(viols);
                    for i in &w.inconclusive {
                        *t.inconclusive.entry(i.clone()).or_default() += 1;
                    }
                    t.traces.extend(traces);
                    t.covers.extend(w.covers.iter().cloned());
                    t.expects.extend(w.expects.iter().cloned());
                    t.conc_sites += w.conc_sites();
                    t.max_input = t.max_input.max(maxin);
                    let mut subs: BTreeSet<u32> = w.visited_subs.clone();
                    for (i, word) in w.visited.iter().enumerate() {
                        if *word == 0 {
                            continue;
                        }
                        for b in 0..64 {
                            if word >> b & 1 == 1 {
                                let id = (i * 64 + b) as u32;
                                let mut cur = id;
                                while let Some(ir::Meta::Loc(l)) = m.meta.get(&cur) {
                                    let sp = m.subprogram_of(l.scope);
                                    subs.insert(sp);
                                    if let Some((_, f, _)) = m.qualified(sp) {
                                        if f.starts_with(&a.src_prefix) {
                                            t.lines.insert((f, l.line));
                                        }
                                    }
                                    if l.inlined_at == 0 {
                                        break;
                                    }
                                    cur = l.inlined_at;
                                }
                            }
                        }
                    }
                    for s in subs {
                        if let Some(q) = m.qualified(s) {
                            if q.1.starts_with(&a.src_prefix) {
                                t.funcs.insert(q);
                            }
                        }
                    }
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            if h.join().is_err() {
                let mut t = total.lock().unwrap_or_else(|p| p.into_inner());
                *t.inconclusive.entry("engine thread panicked".into()).or_default() += 1;
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut r = total.into_inner().unwrap_or_else(|p| p.into_inner());
    if sh.timeout.load(Ordering::Relaxed) {
        r.inconclusive.insert("time limit reached before the path tree was exhausted".into(), 1);
    }
    r
}

fn main() {
    let a = args();
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&a.module).expect("read module");
    let m = ir::Module::parse(&src);
    drop(src);
    let img = Image::new(&m);
    let spec = classify(&m);
    let parse_s = t0.elapsed().as_secs_f64();
    let mut out = String::new();
    out.push_str(&format!(
        "{{\"z3\":{},\"parse_s\":{:.2},\"functions_in_module\":{},\"harnesses\":[\n",
        js(&z3::version()),
        parse_s,
        m.funcs.iter().filter(|f| f.defined).count()
    ));
    let mut found = 0;
    for (hi, h) in a.harnesses.iter().enumerate() {
        if found > 0 && t0.elapsed().as_secs_f64() > a.total.min(240.0) {
            break; // a check that has found something answers in time
        }
        let Some(&fi) = m.fidx.get(h) else {
            eprintln!("lsx: no harness {h}");
            std::process::exit(66);
        };
        let t1 = Instant::now();
        let left = (a.total - t0.elapsed().as_secs_f64()).max(1.0);
        let left = if found > 0 { left.min(20.0) } else { left };
        let r = run_harness(&m, &img, &spec, fi, &a, a.time.min(left));
        found += r.violations.len();
        let wall = t1.elapsed().as_secs_f64();
        let complete = r.inconclusive.is_empty();
        eprintln!(
            "{h}: paths={} assume-cut={} decisions={} queries(sat/unsat/unk/cached/dom)={}/{}/{}/{}/{} asserts={}/{} viol={} inconcl={:?} steps={} solver={:.1}s wall={:.1}s maxq={}ms",
            r.stats.paths,
            r.stats.assume_paths,
            r.stats.decisions,
            r.stats.q_sat,
            r.stats.q_unsat,
            r.stats.q_unknown,
            r.stats.q_cached,
            r.stats.q_domain,
            r.stats.asserts_discharged,
            r.stats.asserts,
            r.violations.len(),
            r.inconclusive,
            r.stats.steps,
            r.stats.solver_ns as f64 / 1e9,
            wall,
            r.stats.max_query_ms
        );
        if hi > 0 {
            out.push_str(",\n");
        }
        let st = &r.stats;
        out.push_str(&format!("{{\"harness\":{},\"complete\":{complete},\"paths\":{},\"assume_cut\":{},\"decisions\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_cached\":{},\"q_domain\":{},\"audits\":{},\"assert_sites_reached\":{},\"asserts_discharged\":{},\"instructions\":{},\"solver_s\":{:.3},\"max_query_ms\":{},\"wall_s\":{:.3},\"conc_values\":{},\"conc_sites\":{},\"max_symbolic_bytes\":{}",
            js(h), st.paths, st.assume_paths, st.decisions, st.q_sat, st.q_unsat, st.q_unknown, st.q_cached, st.q_domain, st.audits, st.asserts, st.asserts_discharged, st.steps, st.solver_ns as f64/1e9, st.max_query_ms, wall, st.conc_values, r.conc_sites, r.max_input));
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        out.push_str(&format!(",\"outcomes\":{{{}}}", r.outcomes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(",\"inconclusive\":{{{}}}", r.inconclusive.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(
            ",\"violations\":{}",
            list(r.violations.iter().map(|(k, msg, i)| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\"}}", js(k), js(msg), hex(i))).collect())
        ));
        out.push_str(&format!(",\"covers\":{}", list(r.covers.iter().map(|s| js(s)).collect())));
        out.push_str(&format!(",\"expects\":{}", list(r.expects.iter().map(|s| js(s)).collect())));
        out.push_str(&format!(
            ",\"functions\":{}",
            list(r.funcs.iter().map(|(n, f, l)| js(&format!("{n} ({}:{l})", f.strip_prefix(&a.src_prefix).unwrap_or(f)))).collect())
        ));
        out.push_str(&format!(",\"lines_executed\":{}", r.lines.len()));
        out.push_str(&format!(
            ",\"traces\":{}}}",
            list(r.traces.iter().map(|(i, o, h)| format!("[\"{}\",{},\"{h:016x}\"]", hex(i), js(o))).collect())
        ));
    }
    out.push_str("\n]}\n");
    if a.out.is_empty() {
        println!("{out}");
    } else {
        std::fs::File::create(&a.out).unwrap().write_all(out.as_bytes()).unwrap();
    }
}
