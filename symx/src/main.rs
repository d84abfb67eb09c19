//! symx: bounded symbolic execution of LLVM bitcode produced from Rust code.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod solver;
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn main() {
    let mut bc = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut passes = "globaldce".to_string();
    let mut list = false;
    let mut cfg = || exec::Cfg {
        threads: 8,
        time_limit: 600.0,
        hurry: false,
        step_cap: 20_000_000,
        max_paths: u64::MAX,
        depth_cap: 400,
        samples: 16,
        params: vec![],
        max_errs: 64,
        alloc_cap: 1 << 20,
        concrete: None,
        trace: false,
    };
    let mut base = cfg();
    // seconds for all entries together
    let mut total = f64::MAX;
    let mut timeout = 20_000u32;
    let mut it = std::env::args().skip(1);
    // params after an entry as name:1,2,3
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("argument");
        match a.as_str() {
            "--bc" => bc = nx(),
            "--entry" => entries.push(nx()),
            "--out" => out = nx(),
            "--passes" => passes = nx(),
            "--threads" => base.threads = nx().parse().unwrap(),
            "--total" => total = nx().parse().unwrap(),
            "--hurry" => base.hurry = true,
            "--time" => base.time_limit = nx().parse().unwrap(),
            "--steps" => base.step_cap = nx().parse().unwrap(),
            "--max-paths" => base.max_paths = nx().parse().unwrap(),
            "--depth" => base.depth_cap = nx().parse().unwrap(),
            "--samples" => base.samples = nx().parse().unwrap(),
            "--max-errs" => base.max_errs = nx().parse().unwrap(),
            "--alloc-cap" => base.alloc_cap = nx().parse().unwrap(),
            "--query-ms" => timeout = nx().parse().unwrap(),
            "--concrete" => {
                let h = nx();
                base.concrete = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
            }
            "--trace" => base.trace = true,
            "--list" => list = true,
            o => {
                eprintln!("unknown option {}", o);
                std::process::exit(2);
            }
        }
    }
    let t0 = std::time::Instant::now();
    let names: Vec<String> = entries.iter().map(|e| e.split(':').next().unwrap().to_string()).collect();
    let m = match llvm::load(&bc, &names, &passes) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: {}", e);
            std::process::exit(2);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    if list {
        for f in &m.funcs {
            println!("{} {} {:?}", if f.decl { "decl" } else { "def " }, f.name, exec::classify(f));
        }
        return;
    }
    let ninst: usize = m.funcs.iter().map(|f| f.blocks.iter().map(|b| b.insts.len()).sum::<usize>()).sum();
    let mut js_out = String::new();
    let _ = write!(js_out, "{{\"z3\":{},\"load_s\":{:.3},\"module_functions\":{},\"module_instructions\":{},\"entries\":[", js(&solver::version()), load_s, m.funcs.len(), ninst);
    let mut first = true;
    let begun = std::time::Instant::now();
    for e in &entries {
        let (name, params) = match e.split_once(':') {
            Some((n, p)) => (n.to_string(), p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            None => (e.clone(), vec![]),
        };
        let Some(fid) = m.funcs.iter().position(|f| f.name == name && !f.decl) else {
            eprintln!("symx: no entry {}", name);
            std::process::exit(2);
        };
        let sh = solver::Shared::new(timeout);
        let mut c = cfg();
        c.threads = base.threads;
        c.hurry = base.hurry;
        c.time_limit = base.time_limit.min((total - begun.elapsed().as_secs_f64()).max(2.0));
        c.step_cap = base.step_cap;
        c.max_paths = base.max_paths;
        c.depth_cap = base.depth_cap;
        c.samples = base.samples;
        c.max_errs = base.max_errs;
        c.alloc_cap = base.alloc_cap;
        c.concrete = base.concrete.clone();
        c.trace = base.trace;
        c.params = params;
        let sp = m.funcs.iter().map(exec::classify).collect();
        let eng = exec::Engine {
            m: &m,
            sp,
            cfg: c,
            sh: &sh,
            c: Default::default(),
            queue: Default::default(),
            cv: Default::default(),
            stop: Default::default(),
            errs: Default::default(),
            errkeys: Default::default(),
            incomplete: Default::default(),
            samples: Default::default(),
            start: std::time::Instant::now(),
            executed: std::sync::Mutex::new(vec![false; m.funcs.len()]),
        };
        eng.run(fid as u32);
        let wall = eng.start.elapsed().as_secs_f64();
        if !first {
            js_out.push(',');
        }
        first = false;
        let st = &sh.stats;
        let k = &eng.c;
        let _ = write!(
            js_out,
            "{{\"entry\":{},\"params\":{:?},\"wall_s\":{:.3},\"states\":{},\"paths_done\":{},\"paths_panic\":{},\"paths_error\":{},\"paths_infeasible\":{},\"steps\":{},\"checks\":{},\"checks_symbolic\":{},\"witness\":{},\"max_sym_bytes\":{},\"max_forks\":{},\"max_path_steps\":{},\"max_heap_allocs\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"finite\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3}",
            js(&name), eng.cfg.params, wall, k.states.load(Relaxed), k.paths_done.load(Relaxed), k.paths_panic.load(Relaxed), k.paths_err.load(Relaxed), k.paths_infeasible.load(Relaxed), k.steps.load(Relaxed), k.checks.load(Relaxed), k.checks_sym.load(Relaxed), k.wit.load(Relaxed), k.max_vars.load(Relaxed), k.max_depth.load(Relaxed), k.max_path_steps.load(Relaxed), k.max_heap.load(Relaxed),
            st.queries.load(Relaxed), st.cache_hits.load(Relaxed), st.sat.load(Relaxed), st.unsat.load(Relaxed), st.unknown.load(Relaxed), st.finite.load(Relaxed), st.nanos.load(Relaxed) as f64 / 1e9, st.max_nanos.load(Relaxed) as f64 / 1e9
        );
        let inc = eng.incomplete.lock().unwrap();
        js_out.push_str(",\"incomplete\":{");
        js_out.push_str(&inc.iter().map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","));
        js_out.push_str("},\"errors\":[");
        let es = eng.errs.lock().unwrap();
        if base.hurry && !es.is_empty() {
            // errors are found: what's left isn't given much more time
            total = total.min(begun.elapsed().as_secs_f64() + 200.0);
        }
        js_out.push_str(
            &es.iter()
                .map(|e| {
                    format!(
                        "{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"count\":{},\"trace\":[{}],\"fns\":[{}]}}",
                        js(&e.kind), js(&e.msg), hex(&e.input), e.count,
                        e.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                        e.fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        js_out.push_str("],\"samples\":[");
        let ss = eng.samples.lock().unwrap();
        js_out.push_str(&ss.iter().map(|s| format!("{{\"input\":\"{}\",\"out\":\"{}\",\"steps\":{},\"panicked\":{}}}", hex(&s.input), hex(&s.outs), s.steps, s.panicked)).collect::<Vec<_>>().join(","));
        js_out.push_str("],\"functions\":[");
        let ex = eng.executed.lock().unwrap();
        let mut fs: Vec<String> = ex.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| exec::demangle(&m.funcs[i].name)).collect();
        fs.sort();
        fs.dedup();
        js_out.push_str(&fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        js_out.push_str("]}");
    }
    js_out.push_str("]}");
    if out.is_empty() {
        println!("{}", js_out);
    } else {
        std::fs::write(&out, js_out).unwrap();
    }
}
