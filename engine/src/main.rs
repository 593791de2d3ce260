mod exec;
mod ir;
mod mem;
mod models;
mod term;
mod val;
mod z3;
use exec::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep recursion over terms
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

fn real_main() -> i32 {
    if std::env::var_os("SYMWALK_PANICS").is_none() {
        std::panic::set_hook(Box::new(|i| eprintln!("{}", i.to_string().chars().take(300).collect::<String>())));
    }
    let mut cfg = Cfg {
        entry: String::new(),
        params: vec![],
        max_steps: 20_000_000,
        timeout: 600.0,
        merge_select: true,
        ncpu: 2,
        preempt: 0,
        switches: 1000,
        stop_on_violation: true,
        rounding: false,
        shard: None,
        max_paths: u64::MAX,
        verbose: false,
        choice_rand: 0,
        expect_panic_free: true,
        logic: String::new(),
        replay: None,
        sched_atomics: true,
        samples: 3,
        uf_float: false,
        track_errors: false,
    };
    let mut file = String::new();
    let mut out = String::new();
    let mut funcs_filter = String::from("walky");
    let mut list = false;
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--ll" => file = nx(),
            "--entry" => cfg.entry = nx(),
            "--param" => {
                for p in nx().split(',') {
                    if !p.is_empty() {
                        cfg.params.push(p.parse().unwrap());
                    }
                }
            }
            "--steps" => cfg.max_steps = nx().parse().unwrap(),
            "--timeout" => cfg.timeout = nx().parse().unwrap(),
            "--no-merge" => cfg.merge_select = false,
            "--ncpu" => cfg.ncpu = nx().parse().unwrap(),
            "--preempt" => cfg.preempt = nx().parse().unwrap(),
            "--switches" => cfg.switches = nx().parse().unwrap(),
            "--continue" => cfg.stop_on_violation = false,
            "--rounding" => cfg.rounding = true,
            "--no-atomics" => cfg.sched_atomics = false,
            "--errors" => {
                cfg.track_errors = true;
                cfg.merge_select = false;
            }
            "--uf" => cfg.uf_float = true,
            "--shard" => {
                let s = nx();
                let (a, b) = s.split_once('/').unwrap();
                cfg.shard = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            "--max-paths" => cfg.max_paths = nx().parse().unwrap(),
            "--samples" => cfg.samples = nx().parse().unwrap(),
            "--verbose" => cfg.verbose = true,
            "--logic" => cfg.logic = nx(),
            "--out" => out = nx(),
            "--filter" => funcs_filter = nx(),
            "--list" => list = true,
            "--replay" => {
                let t = std::fs::read_to_string(nx()).unwrap();
                let mut v = vec![];
                for l in t.lines() {
                    let w: Vec<&str> = l.split_whitespace().collect();
                    if w.len() >= 2 && matches!(w[0], "c" | "f" | "u") {
                        v.push((w[0].chars().next().unwrap(), w[1].parse().unwrap()));
                    }
                }
                cfg.replay = Some(v);
            }
            _ => {
                eprintln!("unknown argument {}", a);
                return 2;
            }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&file);
    if list {
        for s in &m.syms {
            if let ir::SymKind::Func { .. } = s.kind {
                println!("{} {}", s.name, pretty(&s.name));
            }
        }
        return 0;
    }
    let load = t0.elapsed().as_secs_f64();
    let entry = cfg.entry.clone();
    let params = cfg.params.clone();
    let verbose = cfg.verbose;
    let mut ex = Exec::new(&m, cfg);
    ex.run_all();
    let wall = t0.elapsed().as_secs_f64();
    let mut s = String::new();
    let _ = write!(s, "{{\n\"entry\":{},\n\"params\":{:?},\n", js(&entry), params);
    let _ = write!(
        s,
        "\"wall_s\":{:.3},\"load_s\":{:.3},\"paths\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"infeasible_branches\":{},\"assumes\":{},\"max_path_condition\":{},\"symbolic_variables\":{},\"truncated\":{},\n",
        wall, load, ex.paths, ex.forks, ex.insts, ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.time, ex.infeasible, ex.assumes, ex.max_pc, ex.max_vars, ex.truncated
    );
    let _ = write!(s, "\"solver\":{},\n", js(&z3::version()));
    let _ = write!(s, "\"outcomes\":{{{}}},\n", ex.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"reach\":{{{}}},\n", ex.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        s,
        "\"checks\":{{{}}},\n",
        ex.checks.iter().map(|(k, v)| format!("{}:{{\"reached\":{},\"trivial\":{},\"solver\":{},\"violated\":{}}}", js(k), v.reached, v.trivially, v.solver, v.violated)).collect::<Vec<_>>().join(",")
    );
    let fs: Vec<String> = ex.used_functions().into_iter().filter(|f| f.contains(&funcs_filter)).collect();
    let _ = write!(s, "\"functions_total\":{},\"functions\":{},\n", ex.used_functions().len(), jl(&fs));
    let v: Vec<String> = ex
        .viols
        .iter()
        .map(|v| format!("{{\"kind\":{},\"what\":{},\"trace\":{},\"stack\":{},\"notes\":{}}}", js(&v.kind), js(&v.what), jl(&v.trace), jl(&v.stack), jl(&v.notes)))
        .collect();
    let _ = write!(s, "\"violations\":[{}],\n", v.join(",\n"));
    let v: Vec<String> = ex.suspects.iter().map(|v| format!("{{\"kind\":{},\"what\":{},\"trace\":{},\"stack\":{}}}", js(&v.kind), js(&v.what), jl(&v.trace), jl(&v.stack))).collect();
    let _ = write!(s, "\"suspects\":[{}],\n", v.join(",\n"));
    let v: Vec<String> = ex.sample_traces.iter().map(|v| format!("{{\"trace\":{},\"notes\":{}}}", jl(&v.trace), jl(&v.notes))).collect();
    let _ = write!(s, "\"samples\":[{}],\n", v.join(",\n"));
    let _ = write!(s, "\"errors\":{}\n}}\n", jl(&ex.errors));
    if verbose {
        let mut f: Vec<_> = ex.fork_sites.iter().collect();
        f.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in f.iter().take(25) {
            eprintln!("{:8} {}", v, k);
        }
    }
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
    if !ex.viols.is_empty() {
        1
    } else if !ex.errors.is_empty() {
        2
    } else {
        0
    }
}
