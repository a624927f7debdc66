mod exec;
mod expr;
mod ir;
mod z3;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let mut args = std::collections::HashMap::new();
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        args.insert(v[i].trim_start_matches("--").to_string(), v[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: &str| get(k, d).parse::<f64>().expect(k);
    if v.first().map(|s| s.as_str()) == Some("--list") {
        let m = ir::Module::load(&v[1]).unwrap();
        let mut n: Vec<&String> = m.fnames().filter(|n| n.starts_with("h_")).collect();
        n.sort();
        for x in n {
            println!("{x}");
        }
        return;
    }
    let m = match ir::Module::load(&get("ll", "")) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: {e}");
            std::process::exit(3);
        }
    };
    let lim = exec::Limits {
        seconds: num("seconds", "60"),
        steps: num("steps", "3000000") as u64,
        alloc: num("alloc", "16777216") as u64,
        samples: num("samples", "32") as usize,
        seed: num("seed", "1") as u64,
        max_viol: num("max-viol", "8") as usize,
        after: num("after", "1000000"),
    };
    let t0 = std::time::Instant::now();
    let mut x = exec::Exec::new(&m, lim, num("solver-ms", "20000") as u32);
    if let Some(d) = args.get("dump") {
        x.s.dump = Some(d.clone());
        x.s.dump_every = num("dump-every", "1") as u64;
    }
    let h = get("harness", "");
    x.run(&h);
    let status = if x.engine_err.is_some() {
        "error"
    } else if !x.viols.is_empty() {
        "violation"
    } else if x.incomplete.is_some() {
        "incomplete"
    } else {
        "ok"
    };
    let mut o = String::from("{");
    let mut kv = |k: &str, v: String| {
        if o.len() > 1 {
            o.push_str(",\n ");
        }
        o.push_str(&format!("{}: {v}", esc(k)));
    };
    kv("harness", esc(&h));
    kv("status", esc(status));
    kv("error", esc(x.engine_err.as_deref().unwrap_or("")));
    kv("incomplete", esc(x.incomplete.as_deref().unwrap_or("")));
    kv("paths", x.paths.to_string());
    kv("assumed_away", x.infeasible.to_string());
    kv("forks", x.forks.to_string());
    kv("instructions", x.steps.to_string());
    kv("checks", x.checks.to_string());
    kv("checks_by_simplifier", x.checks_trivial.to_string());
    kv("queries", x.s.queries.to_string());
    kv("sat", x.s.n_sat.to_string());
    kv("unsat", x.s.n_unsat.to_string());
    kv("unknown", x.s.n_unknown.to_string());
    kv("solver_s", format!("{:.3}", x.s.time));
    kv("max_query_s", format!("{:.3}", x.s.max_time));
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("terms", x.p.n.len().to_string());
    kv("input_bytes", x.p.nvars.to_string());
    kv("max_path_conditions", x.max_pc.to_string());
    kv("solver", esc(&format!("z3 {}", z3::version())));
    let l = |v: Vec<String>| format!("[{}]", v.join(", "));
    kv("reached", l(x.reach.iter().map(|r| r.to_string()).collect()));
    kv("check_ids", l(x.check_ids.iter().map(|r| r.to_string()).collect()));
    kv("stubs", format!("{{{}}}", x.stubs().iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")));
    kv("functions", l(x.functions().iter().map(|f| esc(f)).collect()));
    let cov = x.coverage();
    kv(
        "lines",
        format!(
            "{{{}}}",
            cov.iter()
                .filter(|(f, _)| !f.contains("/rustc/") && !f.contains("/.cargo/registry") && !f.contains("/.rustup/"))
                .map(|(f, s)| format!("{}: [{}]", esc(f), s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(",\n  ")
        ),
    );
    kv(
        "violations",
        l(x.viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\": {}, \"what\": {}, \"inputs\": \"{}\", \"layout\": {}, \"stack\": [{}]}}",
                    esc(&v.kind),
                    esc(&v.what),
                    hex(&v.inputs),
                    esc(&v.layout),
                    v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect()),
    );
    kv(
        "samples",
        l(x.samples
            .iter()
            .map(|s| {
                format!(
                    "{{\"inputs\": \"{}\", \"obs\": [{}]}}",
                    hex(&s.inputs),
                    s.obs.iter().map(|(t, v)| format!("[{t}, \"{v:x}\"]")).collect::<Vec<_>>().join(", ")
                )
            })
            .collect()),
    );
    o.push_str("}\n");
    let out = get("out", "");
    if out.is_empty() {
        print!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
