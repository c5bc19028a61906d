mod exec;
mod expr;
mod ir;
mod par;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct SolverStats {
    queries: u64,
    cached: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    time: f64,
    maxq: f64,
}

fn hexs(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect::<String>() + "."
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

fn ser(st: &Stats, ss: &SolverStats) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "n {} {} {} {} {} {} {}", st.paths, st.infeasible, st.forks, st.steps, st.merges, st.asserts, st.maxdepth);
    let _ = writeln!(o, "s {} {} {} {} {} {} {}", ss.queries, ss.cached, ss.sat, ss.unsat, ss.unknown, ss.time, ss.maxq);
    for (k, v) in &st.covers {
        let _ = writeln!(o, "c {} {}", hexs(k), v);
    }
    for (k, v) in &st.forksites {
        let _ = writeln!(o, "k {} {}", hexs(k), v);
    }
    for f in &st.funcs {
        let _ = writeln!(o, "f {}", hexs(f));
    }
    for e in &st.errors {
        let _ = writeln!(o, "e {}", hexs(e));
    }
    for v in &st.viols {
        let _ = writeln!(o, "v {} {}", hexs(&v.kind), hexs(&v.msg));
        for t in &v.trace {
            let _ = writeln!(o, "vt {}", hexs(t));
        }
        for (n, b) in &v.inputs {
            let _ = writeln!(o, "vi {} {}", hexs(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>() + ".");
        }
        for t in &v.notes {
            let _ = writeln!(o, "vn {}", hexs(t));
        }
    }
    for x in &st.samples {
        o.push_str("p\n");
        for (n, b) in x {
            let _ = writeln!(o, "pi {} {}", hexs(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>() + ".");
        }
    }
    o.push_str("end\n");
    o
}

fn merge(st: &mut Stats, ss: &mut SolverStats, s: &str) {
    if !s.ends_with("end\n") {
        st.errors.push("truncated worker result".into());
    }
    for l in s.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "n" => {
                st.paths += n(1);
                st.infeasible += n(2);
                st.forks += n(3);
                st.steps += n(4);
                st.merges += n(5);
                st.asserts += n(6);
                st.maxdepth = st.maxdepth.max(n(7) as u32);
            }
            "s" => {
                ss.queries += n(1);
                ss.cached += n(2);
                ss.sat += n(3);
                ss.unsat += n(4);
                ss.unknown += n(5);
                ss.time += w[6].parse::<f64>().unwrap();
                ss.maxq = ss.maxq.max(w[7].parse::<f64>().unwrap());
            }
            "c" => *st.covers.entry(unhex(w[1])).or_insert(0) += n(2),
            "k" => *st.forksites.entry(unhex(w[1])).or_insert(0) += n(2),
            "f" => {
                st.funcs.insert(unhex(w[1]));
            }
            "e" => st.errors.push(unhex(w[1])),
            "v" => st.viols.push(Viol { kind: unhex(w[1]), msg: unhex(w[2]), trace: vec![], inputs: vec![], notes: vec![] }),
            "vt" => st.viols.last_mut().unwrap().trace.push(unhex(w[1])),
            "vi" => {
                let h = w[2];
                let b = (0..(h.len() - 1) / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                st.viols.last_mut().unwrap().inputs.push((unhex(w[1]), b))
            }
            "p" => st.samples.push(vec![]),
            "pi" => {
                let h = w[2];
                let b = (0..(h.len() - 1) / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                st.samples.last_mut().unwrap().push((unhex(w[1]), b))
            }
            "vn" => st.viols.last_mut().unwrap().notes.push(unhex(w[1])),
            _ => {}
        }
    }
}

fn main() {
    // deep recursion in the simplifier: use a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut lls = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut qt = 60_000u32;
    let mut cfg = Config { max_seconds: 600.0, max_steps: 2_000_000_000, max_viol: 1, max_states: 50_000_000, jobs: 1, verbose: false, trace: std::env::var_os("SYMX_TRACE").is_some(), samples: 0, params: Default::default() };
    let mut i = 0;
    while i < a.len() {
        let v = || a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => lls.push(v()),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--jobs" => cfg.jobs = v().parse().unwrap(),
            "--time" => cfg.max_seconds = v().parse().unwrap(),
            "--steps" => cfg.max_steps = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--param" => {
                let x = v();
                let (k, n) = x.split_once('=').expect("--param name=value");
                cfg.params.insert(k.to_string(), n.parse().expect("--param name=value"));
            }
            "--viol" => cfg.max_viol = v().parse().unwrap(),
            "--qtimeout" => qt = v().parse().unwrap(),
            "-v" => {
                cfg.verbose = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown argument {}", x);
                return 3;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let mut pr = ir::Program::new();
    for l in &lls {
        match std::fs::read_to_string(l) {
            Ok(s) => pr.load(s),
            Err(e) => {
                eprintln!("{}: {}", l, e);
                return 3;
            }
        }
    }
    let verbose = cfg.verbose;
    let jobs = cfg.jobs;
    let dir = std::path::PathBuf::from(format!("{}.parts", out));
    if jobs > 1 {
        let _ = std::fs::create_dir_all(&dir);
        par::init(jobs, dir.clone());
    }
    let mut e = Engine::new(pr, cfg, qt);
    e.run(&entry);
    let s = &e.solver;
    let mut ss = SolverStats { queries: s.queries, cached: s.cached, sat: s.sat, unsat: s.unsat, unknown: s.unknown, time: s.time, maxq: s.maxq };
    let mut st = std::mem::take(&mut e.st);
    if jobs > 1 {
        if !st.viols.is_empty() || !st.errors.is_empty() {
            par::stop_all();
        }
        for r in par::collect() {
            match r {
                Ok(s) => merge(&mut st, &mut ss, &s),
                Err(m) => st.errors.push(m),
            }
        }
        if par::is_child() {
            par::hand_in(&ser(&st, &ss));
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    // identical violations found by different workers
    let mut seen = std::collections::BTreeSet::new();
    st.viols.retain(|v| seen.insert((v.kind.clone(), v.msg.clone())));
    st.errors.dedup();
    if !st.viols.is_empty() || st.errors.iter().any(|e| !e.starts_with("stopped:")) {
        st.errors.retain(|e| !e.starts_with("stopped:"));
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"merges\":{},\"asserts\":{},\"steps\":{},\"maxdepth\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.2},\"exprs\":{},",
        esc(&entry), st.paths, st.infeasible, st.forks, st.merges, st.asserts, st.steps, st.maxdepth, ss.queries, ss.cached, ss.sat, ss.unsat, ss.unknown, ss.time, ss.maxq, t0.elapsed().as_secs_f64(), expr::num_nodes()
    );
    let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let _ = write!(o, "\"covers\":{{{}}},", m(&st.covers));
    let _ = write!(o, "\"errors\":[{}],", st.errors.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", st.funcs.iter().map(|x| esc(&demangle(x))).collect::<Vec<_>>().join(","));
    let inp = |x: &Vec<(String, Vec<u8>)>| x.iter().map(|(n, b)| format!("[{},\"{}\"]", esc(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect::<Vec<_>>().join(",");
    let _ = write!(o, "\"samples\":[{}],", st.samples.iter().map(|x| format!("[{}]", inp(x))).collect::<Vec<_>>().join(",\n"));
    let vs: Vec<String> = st
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"trace\":[{}],\"inputs\":[{}],\"notes\":[{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                v.trace.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                v.inputs.iter().map(|(n, b)| format!("[{},\"{}\"]", esc(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}]}}", vs.join(",\n"));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, &o).expect("write report");
    }
    if verbose {
        let mut k: Vec<_> = st.forksites.iter().collect();
        k.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (s, n) in k.iter().take(15) {
            eprintln!("{:8} {}", n, s);
        }
    }
    if !st.viols.is_empty() {
        1
    } else if !st.errors.is_empty() {
        2
    } else {
        0
    }
}
