//! symx — path-forking symbolic executor for LLVM IR with Z3 deciding branches and assertions.
//!
//! usage: symx MODULE.ll ENTRY OUT.json [--time S] [--instr N] [--paths N] [--query-ms N] [--debug N]

mod exec;
mod expr;
mod intr;
mod ir;
mod mem;
mod sha;
mod solver;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symx MODULE.ll ENTRY OUT.json [options]");
        return 3;
    }
    let mut time = 600.0f64;
    let mut instr = 20_000_000_000u64;
    let mut paths = 2_000_000u64;
    let mut qms = 4_000u32;
    let mut ems = 90_000u64;
    let mut debug = 0u32;
    let mut samples = 12usize;
    let mut seed = 1u64;
    let mut tier = 0u64;
    let mut i = 4;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--time" => time = v.parse().unwrap(),
            "--instr" => instr = v.parse().unwrap(),
            "--paths" => paths = v.parse().unwrap(),
            "--query-ms" => qms = v.parse().unwrap(),
            "--ext-ms" => ems = v.parse().unwrap(),
            "--debug" => debug = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--tier" => tier = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            o => panic!("option {o}"),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let mut a = expr::Arena::new();
    let m = ir::Module::load(&args[1], &mut a);
    let entry = match m.fn_by_name.get(&args[2]) {
        Some(e) => *e,
        None => {
            eprintln!("symx: no function {}", args[2]);
            return 3;
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let scratch = std::path::Path::new(&args[3]).parent().map(|p| p.display().to_string()).unwrap_or(".".into());
    let mut s = solver::Solver::new(qms, scratch);
    s.ext_ms = ems;
    let lim = exec::Limits { max_instr: instr, max_paths: paths, max_time: time, max_depth: 4000 };
    let mut x = exec::Exec::new(a, m, s, lim);
    x.debug = debug;
    x.tier = tier;
    x.max_samples = samples;
    x.rng ^= seed.wrapping_mul(0x2545F4914F6CDD1D);
    x.explore(entry);
    if debug > 0 {
        let mut v: Vec<_> = x.branch_sites.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for ((f, b, ip), n) in v.iter().take(12) {
            eprintln!("fork site {n}: {} bb{b} ip{ip}", exec::demangle(&x.m.funcs[*f as usize].name));
        }
    }
    let mut o = String::new();
    let fmt_in = |v: &Vec<(u32, u128)>| list(v, |(w, x)| format!("[{w},\"{x}\"]"));
    let mut fr: Vec<(String, u64)> = x.funcs_run.iter().map(|(f, n)| (exec::demangle(&x.m.funcs[*f as usize].name), *n)).collect();
    fr.sort();
    let ours: Vec<&(String, u64)> = fr
        .iter()
        .filter(|(n, _)| n.starts_with("rgbstd::") || n.starts_with("rgbinvoice::"))
        .collect();
    let _ = write!(
        o,
        "{{\"entry\":{},\"complete\":{},\"paths\":{},\"paths_panic\":{},\"paths_allowed_panic\":{},\"paths_dropped\":{},\"left\":{},\"instructions\":{},\"forks\":{},\"max_constraints\":{},\"expr_nodes\":{},",
        js(&args[2]),
        x.inconclusive.is_empty() && x.work.is_empty(),
        x.paths_done,
        x.paths_panic,
        x.paths_allowed_panic,
        x.paths_dropped,
        x.work.len(),
        x.instr,
        x.forks,
        x.max_pc,
        x.a.n.len(),
    );
    let st = &x.s.st;
    let _ = write!(
        o,
        "\"queries\":{},\"solver_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"external\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},",
        st.queries, st.solver_calls, st.sat, st.unsat, st.unknown, st.cache_hits, st.model_hits, st.external, st.time, st.max_time, load_s, t0.elapsed().as_secs_f64()
    );
    let ck: Vec<_> = x.checks.iter().collect();
    let _ = write!(o, "\"checks\":{},", list(&ck, |(k, v)| format!("{{\"label\":{},\"evaluated\":{},\"symbolic\":{}}}", js(k), v.0, v.1)));
    let cv: Vec<_> = x.covers.iter().collect();
    let _ = write!(o, "\"covers\":{{{}}},", cv.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"violations\":{},",
        list(&x.violations, |v| format!(
            "{{\"label\":{},\"kind\":{},\"known\":{},\"inputs\":{},\"trace\":{}}}",
            js(&v.label),
            js(v.kind),
            v.known.as_ref().map(|k| js(k)).unwrap_or("null".into()),
            fmt_in(&v.inputs),
            list(&v.trace, |t| js(t))
        ))
    );
    let vc: Vec<_> = x.viol_count.iter().collect();
    let _ = write!(o, "\"violation_counts\":{{{}}},", vc.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"samples\":{},",
        list(&x.samples, |(v, c)| format!("{{\"inputs\":{},\"covers\":{}}}", fmt_in(v), list(c, |t| js(t))))
    );
    let _ = write!(o, "\"inconclusive\":{},", list(&x.inconclusive, |t| js(t)));
    let _ = write!(o, "\"functions_total\":{},\"functions\":{}}}\n", fr.len(), list(&ours, |t| js(&t.0)));
    std::fs::write(&args[3], o).expect("write output");
    if debug > 0 {
        for v in &x.violations {
            eprintln!("violation [{}] {} known={:?} inputs={:?}\n   {}", v.kind, v.label, v.known, v.inputs, v.trace.join(" > "));
        }
        for e in &x.inconclusive {
            eprintln!("inconclusive: {e}");
        }
    }
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(_) => 3,
    };
    std::process::exit(code);
}
