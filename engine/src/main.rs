mod exec;
mod expr;
mod ir;
mod lex;
mod z3;

use std::fmt::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32) & 0xffff);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut lls = vec![];
    let mut harnesses: Vec<String> = vec![];
    let mut out = String::new();
    let (mut max_paths, mut max_steps, mut max_secs, mut z3t, mut jobs, mut keep) = (2_000_000u64, 400_000_000u64, 600.0f64, 60_000u32, 8usize, 24usize);
    let mut dump = None;
    let mut slm = 4096u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => lls.push(v()),
            "--harness" => harnesses.extend(v().split(',').map(str::to_string)),
            "--out" => out = v(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-secs" => max_secs = v().parse().unwrap(),
            "--z3-timeout" => z3t = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--keep" => keep = v().parse().unwrap(),
            "--sym-load-max" => slm = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            _ => panic!("unknown option {a}"),
        }
    }
    let prog = ir::Program::load(&lls).expect("load IR");
    if harnesses.iter().any(|h| h.ends_with('*')) {
        let pats: Vec<String> = std::mem::take(&mut harnesses);
        for p in pats {
            if let Some(pre) = p.strip_suffix('*') {
                let mut v: Vec<String> = prog.ext_funcs.keys().filter(|k| k.starts_with(pre)).cloned().collect();
                v.sort();
                harnesses.extend(v);
            } else {
                harnesses.push(p);
            }
        }
    }
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..jobs.min(harnesses.len()) {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= harnesses.len() {
                        break;
                    }
                    let h = &harnesses[i];
                    let t = std::time::Instant::now();
                    let lim = exec::Limits { max_paths, max_steps, max_secs, max_viol: 2, keep_inputs: keep, sym_load_max: slm };
                    let mut e = exec::Engine::new(&prog, lim, z3t);
                    e.z3.dump = dump.clone().map(|d| {
                        let p = format!("{d}/{h}");
                        let _ = std::fs::create_dir_all(&p);
                        p
                    });
                    let complete = e.run(h);
                    let secs = t.elapsed().as_secs_f64();
                    let st = &e.stats;
                    let mut o = String::new();
                    let _ = write!(
                        o,
                        "{{\"harness\":{},\"exhausted\":{},\"secs\":{:.3},\"paths\":{},\"complete\":{},\"expected_panics\":{},\"dropped\":{},\"asserts\":{},\"asserts_by_solver\":{},\"sym_branches\":{},\"sym_loads\":{},\"concretizations\":{},\"steps\":{},\"queries\":{},\"unsat\":{},\"cache_hits\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3}",
                        js(h), complete, secs, st.paths, st.complete, st.expected_panics, st.dropped, st.asserts, st.asserts_solver, st.branches_sym, st.sym_loads, st.concretizations, st.steps, e.z3.queries, e.z3.unsat, st.cache_hits, e.z3.time, e.z3.max_query
                    );
                    let _ = write!(o, ",\"errors\":[{}]", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
                    let _ = write!(o, ",\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
                    let _ = write!(o, ",\"assert_ids\":[{}]", e.assert_ids.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    let inp = |v: &[(u16, u64)]| v.iter().map(|(w, x)| format!("[{w},{x}]")).collect::<Vec<_>>().join(",");
                    let _ = write!(
                        o,
                        ",\"violations\":[{}]",
                        e.viols.iter().map(|v| format!("{{\"kind\":{},\"what\":{},\"stack\":[{}],\"inputs\":[{}]}}", js(&v.kind), js(&v.what), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), inp(&v.inputs))).collect::<Vec<_>>().join(",")
                    );
                    let _ = write!(
                        o,
                        ",\"samples\":[{}]",
                        e.samples.iter().map(|(i, ob, d)| format!("{{\"inputs\":[{}],\"obs\":[{}],\"done\":{}}}", inp(i), ob.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), d)).collect::<Vec<_>>().join(",")
                    );
                    let _ = write!(o, ",\"functions\":[{}]}}", e.used_fns.iter().filter(|f| f.contains("frozen_collections")).map(|x| js(x)).collect::<Vec<_>>().join(","));
                    eprintln!("{h}: exhausted={complete} paths={} viol={} err={} {:.1}s (z3 {} q, {:.1}s) steps={}", st.paths, e.viols.len(), e.errors.len(), secs, e.z3.queries, e.z3.time, st.steps);
                    for v in &e.viols {
                        eprintln!("   {} {} @ {}  inputs {:?}", v.kind, v.what, v.stack.join(" < "), v.inputs);
                    }
                    for v in &e.errors {
                        eprintln!("   error: {v}");
                    }
                    results.lock().unwrap().push((i, o));
                })
                .unwrap();
        }
    });
    let mut r = results.into_inner().unwrap();
    r.sort();
    let body = format!("[{}]\n", r.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
    if out.is_empty() {
        print!("{body}");
    } else {
        std::fs::write(&out, body).expect("write output");
    }
}
