mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn jmap<V>(m: &std::collections::BTreeMap<u32, V>, f: impl Fn(&V) -> String) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, f(v))).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ir = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Cfg { params: vec![], max_steps: 200_000_000, max_depth: 3000, max_paths: u64::MAX, time_s: 600.0, max_errors: 1 };
    let mut solver_ms = 60_000;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => ir = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--param" => cfg.params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--steps" => cfg.max_steps = v.parse().unwrap(),
            "--depth" => cfg.max_depth = v.parse().unwrap(),
            "--paths" => cfg.max_paths = v.parse().unwrap(),
            "--time" => cfg.time_s = v.parse().unwrap(),
            "--errors" => cfg.max_errors = v.parse().unwrap(),
            "--solver-ms" => solver_ms = v.parse().unwrap(),
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let t = std::time::Instant::now();
    let m = ir::Module::load(&ir);
    let load = t.elapsed().as_secs_f64();
    let mut e = exec::Engine::new(m, cfg, solver_ms);
    let done = e.run(&entry);
    let status = if !e.failures.is_empty() {
        "violation"
    } else if !e.inconclusive.is_empty() {
        "inconclusive"
    } else if !done {
        "incomplete"
    } else {
        "complete"
    };
    let mut s = String::from("{");
    s += &format!("\"entry\":{},\"status\":\"{}\",", jstr(&entry), status);
    s += &format!("\"params\":{},", jarr(&e.cfg.params));
    s += &format!("\"paths\":{},\"infeasible\":{},\"pending\":{},\"forks\":{},\"instructions\":{},\"interval_decided\":{},", e.paths, e.infeasible, e.work.len(), e.forks, e.steps, e.quick);
    s += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver\":{},",
        e.sol.queries,
        e.sol.sat,
        e.sol.unsat,
        e.sol.unknown,
        e.sol.time.as_secs_f64(),
        jstr(&z3::version())
    );
    s += &format!("\"load_s\":{:.3},\"wall_s\":{:.3},\"exprs\":{},\"max_live\":{},", load, t.elapsed().as_secs_f64(), e.x.nodes.len(), e.maxlive);
    s += &format!("\"covers\":{},", jmap(&e.covers, |v| v.to_string()));
    s += &format!("\"cover_inputs\":{},", jmap(&e.cover_inputs, |v| jarr(v)));
    s += &format!("\"asserts\":{},", jmap(&e.asserts, |v| format!("[{},{}]", v.0, v.1)));
    s += &format!("\"samples\":[{}],", e.samples.iter().map(|v| jarr(v)).collect::<Vec<_>>().join(","));
    s += &format!("\"notes\":{{{}}},", e.notes.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    s += &format!("\"functions\":[{}],", e.entered_names().iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    s += &format!("\"inconclusive\":[{}],", e.inconclusive.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    s += "\"failures\":[";
    let fs: Vec<String> = e
        .failures
        .iter()
        .map(|f| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"func\":{},\"stack\":[{}],\"inputs\":{}}}",
                jstr(&f.kind),
                jstr(&f.msg),
                jstr(&f.func),
                f.stack.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                jarr(&f.inputs)
            )
        })
        .collect();
    s += &fs.join(",");
    s += "]}\n";
    if out.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
}
