mod dbg;
mod exec;
mod expr;
mod ir;
mod poly;
mod icp;
mod solver;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ir = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let out = get("--out");
    let timeout: f64 = get("--timeout").map_or(600.0, |x| x.parse().unwrap());
    let start = Instant::now();
    // deep recursion over terms
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let text = std::fs::read_to_string(&ir).expect("reading the IR");
            let m = match ir::Module::parse(&text) {
                Ok(m) => m,
                Err(e) => {
                    eprintln!("parse: {}", e);
                    std::process::exit(2);
                }
            };
            let parse_s = start.elapsed().as_secs_f64();
            let a: Vec<String> = std::env::args().collect();
            let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let mut s = solver::Solver::new(&get("--scratch").unwrap_or("/tmp".into()));
            if let Some(x) = get("--inc-ms") {
                s.inc_ms = x.parse().unwrap();
            }
            if let Some(x) = get("--one-s") {
                s.one_s = x.parse().unwrap();
            }
            s.ints = a.iter().any(|x| x == "--ints");
            s.dump = get("--dump");
            if let Some(x) = get("--icp-boxes") {
                s.icp_boxes = x.parse().unwrap();
            }
            if let Some(x) = get("--icp-vars") {
                s.icp_vars = x.parse().unwrap();
            }
            let mut e = exec::Exec::new(&m, s);
            e.deadline = start + Duration::from_secs_f64(timeout);
            if let Some(x) = get("--max-steps") {
                e.max_steps = x.parse().unwrap();
            }
            if let Some(x) = get("--samples") {
                e.max_samples = x.parse().unwrap();
            }
            if let Some(x) = get("--choose") {
                e.choose = x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            }
            if let Some(x) = get("--max-violations") {
                e.max_violations = x.parse().unwrap();
            }
            if let Err(x) = e.run(&entry) {
                eprintln!("{}", x);
                std::process::exit(2);
            }
            let fs = dbg::functions(&m, e.dbg_seen.iter().copied());
            let st = e.solver.stats.clone();
            let mut o = String::new();
            o.push_str(&format!("{{\"entry\":{},\n", js(&entry)));
            o.push_str(&format!("\"choose\":{},\n", list(e.choose.iter(), |x| x.to_string())));
            o.push_str(&format!("\"complete\":{},\"paths\":{},\"infeasible\":{},\"panics_allowed\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"terms\":{},\"unknown_branches\":{},\n", !e.incomplete && e.errors.is_empty(), e.paths, e.dead, e.panics_ok, e.forks, e.steps, e.asserts, e.ctx.nodes.len(), e.unknown_branches));
            o.push_str(&format!(
                "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"cached\":{},\"intervals\":{},\"interval_rests\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"parse_s\":{:.2},\"wall_s\":{:.2},\n",
                st.queries, st.sat, st.unsat, st.unknown, st.fallback, st.cache, st.icp, st.residual, st.time, st.max, parse_s, start.elapsed().as_secs_f64()
            ));
            o.push_str(&format!("\"timed_out\":{},\n", e.incomplete));
            o.push_str(&format!("\"errors\":{},\n", list(e.errors.iter(), |(k, n)| format!("{{\"what\":{},\"count\":{}}}", js(k), n))));
            o.push_str(&format!("\"covers\":{{{}}},\n", e.covers.iter().map(|(k, b)| format!("{}:{}", js(k), b)).collect::<Vec<_>>().join(",")));
            o.push_str(&format!("\"cover_inputs\":{},\n", list(e.cover_inputs.iter(), |(k, v)| format!("{{\"cover\":{},\"inputs\":{}}}", js(k), list(v.iter(), |x| format!("\"{:x}\"", x))))));
            o.push_str(&format!("\"notes\":{},\n", list(e.notes.iter(), |k| js(k))));
            o.push_str(&format!(
                "\"violations\":{},\n",
                list(e.violations.iter(), |v| format!(
                    "{{\"kind\":{},\"what\":{},\"have_model\":{},\"tainted\":{},\"inputs\":{},\"trace\":{}}}",
                    js(&v.kind),
                    js(&v.what),
                    v.have_model,
                    v.tainted,
                    list(v.inputs.iter(), |x| format!("\"{:x}\"", x)),
                    list(v.trace.iter(), |x| js(x))
                ))
            ));
            o.push_str(&format!(
                "\"samples\":{},\n",
                list(e.samples.iter(), |v| format!(
                    "{{\"inputs\":{},\"panicked\":{},\"covers\":{},\"outs\":{}}}",
                    list(v.inputs.iter(), |x| format!("\"{:x}\"", x)),
                    v.panicked,
                    list(v.covers.iter(), |x| js(x)),
                    list(v.outs.iter(), |x| x.map_or("null".into(), |x| format!("\"{:x}\"", x)))
                ))
            ));
            o.push_str(&format!("\"functions\":{}}}\n", list(fs.iter(), |(f, n)| js(&format!("{}:{}", f, n)))));
            match out {
                Some(p) => std::fs::write(p, o).unwrap(),
                None => println!("{}", o),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(2);
    }
}
