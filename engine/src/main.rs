mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write;

fn walk(d: &std::path::Path, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "ll") {
                out.push(p.to_string_lossy().to_string());
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll: Vec<String> = vec![];
    let mut entries: Vec<String> = vec![];
    let mut out = None;
    let mut cfg = exec::Cfg {
        entry: 0,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        time: 600.0,
        fuel: 20_000_000,
        depth: 3000,
        samples: 64,
        max_viol: 24,
        verbose: false,
        solver_timeout_ms: 30_000,
        max_paths: 0,
    };
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--selftest" => {
                let mut tot = 0;
                for seed in 1..20u64 {
                    match expr::selftest(seed.wrapping_mul(0x9E3779B97F4A7C15), 400) {
                        Ok(n) => tot += n,
                        Err(e) => {
                            println!("selftest FAILED: {e}");
                            std::process::exit(1);
                        }
                    }
                }
                println!("selftest ok: {tot} expressions");
                return;
            }
            "--ll" => ll.push(next()),
            "--entry" => entries.extend(next().split(',').map(|s| s.to_string())),
            "--out" => out = Some(next()),
            "--threads" => cfg.threads = next().parse().unwrap(),
            "--time" => cfg.time = next().parse().unwrap(),
            "--fuel" => cfg.fuel = next().parse().unwrap(),
            "--depth" => cfg.depth = next().parse().unwrap(),
            "--samples" => cfg.samples = next().parse().unwrap(),
            "--max-viol" => cfg.max_viol = next().parse().unwrap(),
            "--max-paths" => cfg.max_paths = next().parse().unwrap(),
            "-v" => cfg.verbose = true,
            _ => {
                eprintln!("unknown option {a}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let mut files = vec![];
    for d in &ll {
        let p = std::path::Path::new(d);
        if p.is_file() {
            files.push(d.clone());
        } else {
            walk(p, &mut files);
        }
    }
    files.sort();
    let skip = ["addr2line", "gimli", "object", "miniz_oxide", "adler2", "rustc_demangle", "std_detect", "panic_unwind"];
    files.retain(|f| {
        let n = f.rsplit('/').next().unwrap();
        !skip.iter().any(|s| n.starts_with(&format!("{s}-")))
    });
    let prog: &'static ir::Prog = match ir::Prog::load(&files) {
        Ok(p) => Box::leak(Box::new(p)),
        Err(e) => {
            eprintln!("load error: {e}");
            std::process::exit(2);
        }
    };
    let mut o = String::from("[\n");
    let mut first = true;
    for en in &entries {
        let (name, lim) = match en.split_once('@') {
            Some((n, l)) => (n.to_string(), l.parse::<f64>().unwrap()),
            None => (en.clone(), cfg.time),
        };
        let f = match prog.find(&name) {
            Some(f) => f,
            None => {
                eprintln!("no entry {name}");
                std::process::exit(2);
            }
        };
        if std::env::var("IRSYM_DUMP").is_ok() {
            let fu = prog.func(f).unwrap();
            for (i, c) in fu.code.iter().enumerate() {
                eprintln!("{i}: {c:?}");
            }
            for (i, c) in fu.edges.iter().enumerate() {
                eprintln!("e{i}: {c:?}");
            }
            eprintln!("{:?} {:?}", fu.msgs, fu.consts);
        }
        let mut c = cfg.clone();
        c.entry = f;
        c.time = lim;
        let t = exec::explore(prog, &c);
        eprintln!(
            "{name}: ok={} pruned={} viol={} err={} forks={} queries={} (cache {}) solver={:.2}s max={:.2}s steps={} maxsteps={} wall={:.2}s{}",
            t.ok,
            t.pruned,
            t.violating,
            t.errors.values().sum::<u64>(),
            t.forks,
            t.queries,
            t.cache_hits,
            t.solver_time,
            t.max_query,
            t.steps,
            t.max_steps,
            t.wall,
            if t.timed_out { " TIMEOUT" } else { "" }
        );
        for (e, n) in t.errors.iter().take(5) {
            eprintln!("  error x{n}: {e}");
        }
        for v in t.viols.iter().take(8) {
            eprintln!("  {}: {} (x{}) vals={:?}", v.kind, v.msg, v.count, v.vals.iter().map(|x| x.1).collect::<Vec<_>>());
            if cfg.verbose {
                for s in &v.stack {
                    eprintln!("      {s}");
                }
            }
        }
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let mut fns: Vec<String> = t
            .fns
            .iter()
            .map(|f| {
                let fi = &prog.fns[*f as usize];
                let m = prog.modules[fi.module as usize].file.rsplit('/').next().unwrap().split('-').next().unwrap().to_string();
                format!("{}\u{0}{}", m, if fi.demangled.is_empty() { &fi.name } else { &fi.demangled })
            })
            .collect();
        fns.sort();
        fns.dedup();
        let vals = |v: &Vec<(u16, u64)>| format!("[{}]", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","));
        let list = |v: &Vec<u64>| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        write!(
            o,
            "{{\"entry\":{},\"ok\":{},\"pruned\":{},\"violating\":{},\"forks\":{},\"decisions\":{},\"steps\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"asserts\":{},\"assert_queries\":{},\"max_vars\":{},\"max_steps\":{},\"sites\":{},\"timed_out\":{},\"wall\":{:.3},\"nodes\":{},\"z3\":{},\n",
            js(&name), t.ok, t.pruned, t.violating, t.forks, t.decisions, t.steps, t.queries, t.cache_hits, t.sat, t.unsat, t.unknown, t.solver_time, t.max_query, t.asserts, t.assert_queries, t.max_vars, t.max_steps, t.sites.len(), t.timed_out, t.wall, t.nodes, js(&solver::version())
        )
        .unwrap();
        write!(o, "\"covers\":{{{}}},\n", t.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, "\"errors\":{{{}}},\n", t.errors.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")).unwrap();
        write!(
            o,
            "\"violations\":[{}],\n",
            t.viols
                .iter()
                .map(|v| format!(
                    "{{\"kind\":{},\"msg\":{},\"count\":{},\"steps\":{},\"vals\":{},\"stack\":[{}]}}",
                    js(&v.kind),
                    js(&v.msg),
                    v.count,
                    v.steps,
                    vals(&v.vals),
                    v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(",\n")
        )
        .unwrap();
        write!(
            o,
            "\"samples\":[{}],\n",
            t.samples.iter().map(|s| format!("{{\"vals\":{},\"obs\":{},\"covers\":{}}}", vals(&s.vals), list(&s.obs), list(&s.covers))).collect::<Vec<_>>().join(",\n")
        )
        .unwrap();
        write!(
            o,
            "\"functions\":[{}]}}",
            fns.iter()
                .map(|s| {
                    let (m, f) = s.split_once('\u{0}').unwrap();
                    format!("[{},{}]", js(m), js(f))
                })
                .collect::<Vec<_>>()
                .join(",")
        )
        .unwrap();
    }
    o.push_str("\n]\n");
    if let Some(p) = out {
        std::fs::write(p, o).unwrap();
    } else {
        print!("{o}");
    }
}
