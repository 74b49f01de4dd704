//! symtrie: bounded symbolic execution of a compiled Rust program with an SMT solver.
mod cover;
mod exec;
mod expr;
mod interp;
mod ir;
mod keccak;
mod selftest;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    stack: Vec<Pending>,
    active: usize,
    stop: bool,
    max_stack: usize,
}
#[derive(Default)]
struct Found {
    violations: Vec<(String, Vec<u64>)>,
    limits: Vec<(String, Vec<u64>)>,
    inconclusive: Vec<(String, Vec<u64>)>,
    deadline: bool,
    samples: BTreeMap<u64, (Vec<u64>, Vec<u64>, bool)>,
    covers: BTreeSet<u32>,
}

fn hash_trail(seed: u64, t: &[Dec]) -> u64 {
    let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567;
    for d in t {
        h = (h ^ d.val as u64 ^ ((d.taken as u64) << 63)).wrapping_mul(0x100000001b3).rotate_left(23) ^ 0x51;
    }
    h = (h ^ (h >> 33)).wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 29)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn words(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("\"{:x}\"", x)).collect();
    format!("[{}]", s.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    match cmd {
        "selftest" => std::process::exit(selftest::main(num("--n", 200000), num("--seed", 1))),
        "parse" => {
            let t = Instant::now();
            let m = load(&args[2]);
            let uns: usize = m.funcs.iter().map(|f| f.insts.iter().filter(|i| matches!(i, ir::I::Unsup(_))).count()).sum();
            let tot: usize = m.funcs.iter().map(|f| f.insts.len()).sum();
            println!("{} functions, {} instructions, {} unsupported, {} external, {:?}", m.funcs.len(), tot, uns, m.exts.len(), t.elapsed());
            let unk: Vec<&String> = m.exts.iter().filter(|e| ext_kind(e) == Ext::Unknown).collect();
            println!("unknown external: {:?}", unk);
            if opt("--uns").is_some() {
                for f in &m.funcs {
                    for i in &f.insts {
                        if let ir::I::Unsup(s) = i {
                            println!("{}: {}", cover::demangle(&f.name), s);
                        }
                    }
                }
            }
        }
        "run" => {
            let m = load(&opt("--ll").expect("--ll"));
            let entry = opt("--entry").expect("--entry");
            let Some(&e) = m.fidx.get(&entry) else {
                eprintln!("no function {}", entry);
                std::process::exit(2)
            };
            let params = opt("--params").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("param")).collect();
            let t0 = Instant::now();
            let cfg = Arc::new(Config {
                entry: e,
                params,
                max_insts: num("--max-insts", 50_000_000),
                max_depth: num("--max-depth", 2000) as usize,
                deadline: t0 + Duration::from_secs(num("--deadline", 600)),
                query_timeout_ms: num("--query-timeout-ms", 60_000) as u32,
            });
            let seed = num("--seed", 1);
            let nsamp = num("--samples", 16) as usize;
            let maxviol = num("--max-viol", 1) as usize;
            let out = explore(m, cfg, num("--threads", 8) as usize, seed, nsamp, maxviol, &entry, t0);
            match opt("--out") {
                Some(p) => std::fs::write(p, out).expect("write"),
                None => println!("{}", out),
            }
        }
        _ => {
            eprintln!("usage: symtrie run|parse|selftest");
            std::process::exit(2)
        }
    }
}
fn load(p: &str) -> &'static ir::Module {
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("{}: {}", p, e);
        std::process::exit(2)
    });
    match ir::parse(&text) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("parse error: {}", e);
            std::process::exit(2)
        }
    }
}

fn explore(m: &'static ir::Module, cfg: Arc<Config>, threads: usize, seed: u64, nsamp: usize, maxviol: usize, entry: &str, t0: Instant) -> String {
    let sh = Arc::new((Mutex::new(Shared { stack: vec![Pending { prefix: vec![], model: vec![] }], active: 0, stop: false, max_stack: 1 }), Condvar::new()));
    let found = Arc::new(Mutex::new(Found::default()));
    let mut hs = vec![];
    for _ in 0..threads {
        let (sh, found, cfg) = (sh.clone(), found.clone(), cfg.clone());
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut ex = Exec::new(m, cfg.clone());
                loop {
                    let p = {
                        let mut g = sh.0.lock().unwrap();
                        loop {
                            if g.stop {
                                break None;
                            }
                            if let Some(p) = g.stack.pop() {
                                g.active += 1;
                                break Some(p);
                            }
                            if g.active == 0 {
                                sh.1.notify_all();
                                break None;
                            }
                            g = sh.1.wait(g).unwrap();
                        }
                    };
                    let Some(p) = p else { break };
                    let r = ex.run(p);
                    let mut stop = false;
                    match r {
                        Stop::Done | Stop::ExpectedPanic => {
                            let h = hash_trail(seed, &ex.trail);
                            let want = {
                                let f = found.lock().unwrap();
                                f.samples.len() < nsamp || f.samples.keys().next_back().map(|k| h < *k).unwrap_or(false)
                            };
                            if want && nsamp > 0 {
                                let model = ex.model.clone();
                                let w = ex.input_words(&model);
                                let t = ex.trace_words();
                                let mut f = found.lock().unwrap();
                                f.samples.insert(h, (w, t, matches!(r, Stop::ExpectedPanic)));
                                if f.samples.len() > nsamp {
                                    let k = *f.samples.keys().next_back().unwrap();
                                    f.samples.remove(&k);
                                }
                            }
                        }
                        Stop::Killed => {}
                        Stop::Violation(s, w) => {
                            let mut f = found.lock().unwrap();
                            f.violations.push((s, w));
                            stop = f.violations.len() >= maxviol;
                        }
                        Stop::Limit(s) => {
                            let w = ex.input_words(&ex.model.clone());
                            let mut f = found.lock().unwrap();
                            f.limits.push((s, w));
                            stop = f.limits.len() >= 3;
                        }
                        Stop::Inconclusive(s) => {
                            let w = ex.input_words(&ex.model.clone());
                            let mut f = found.lock().unwrap();
                            f.inconclusive.push((s, w));
                            stop = f.inconclusive.len() >= 3;
                        }
                        Stop::Deadline => {
                            found.lock().unwrap().deadline = true;
                            stop = true;
                        }
                    }
                    if Instant::now() > cfg.deadline {
                        found.lock().unwrap().deadline = true;
                        stop = true;
                    }
                    let mut g = sh.0.lock().unwrap();
                    g.active -= 1;
                    g.stack.append(&mut ex.out);
                    g.max_stack = g.max_stack.max(g.stack.len());
                    if stop {
                        g.stop = true;
                    }
                    if g.stop || g.stack.is_empty() && g.active == 0 {
                        sh.1.notify_all();
                        if g.stop {
                            break;
                        }
                    } else if !g.stack.is_empty() {
                        sh.1.notify_all();
                    }
                }
                (ex.st, ex.visited, ex.covers)
            })
            .unwrap();
        hs.push(h);
    }
    let mut st = Stats::default();
    let mut visited: Vec<Vec<bool>> = m.funcs.iter().map(|f| vec![false; f.block_start.len()]).collect();
    let mut crashed = 0;
    for h in hs {
        match h.join() {
            Ok((s, v, c)) => {
                st.add(&s);
                for (a, b) in visited.iter_mut().zip(v) {
                    for (x, y) in a.iter_mut().zip(b) {
                        *x |= y;
                    }
                }
                found.lock().unwrap().covers.extend(c);
            }
            Err(_) => crashed += 1,
        }
    }
    let f = found.lock().unwrap();
    let left = sh.0.lock().unwrap().stack.len();
    let complete = crashed == 0 && left == 0 && !f.deadline && f.inconclusive.is_empty() && f.limits.is_empty() && f.violations.is_empty();
    let cv = cover::collect(m, &visited);
    let mut o = String::new();
    let list = |v: &Vec<(String, Vec<u64>)>| v.iter().map(|(s, w)| format!("{{\"what\":{},\"inputs\":{}}}", js(s), words(w))).collect::<Vec<_>>().join(",");
    let _ = write!(o, "{{\"entry\":{},\"complete\":{},\"crashed_threads\":{},\"deadline\":{},\"pending_left\":{},", js(entry), complete, crashed, f.deadline, left);
    let _ = write!(o, "\"violations\":[{}],\"limits\":[{}],\"inconclusive\":[{}],", list(&f.violations), list(&f.limits), list(&f.inconclusive));
    let _ = write!(
        o,
        "\"stats\":{{\"paths\":{},\"panic_paths\":{},\"killed_by_assumption\":{},\"forks\":{},\"choices\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_s\":{:.3},\"assertions_by_rewriting\":{},\"assertions_by_solver\":{},\"instructions\":{},\"symbolic_hashes\":{},\"concrete_hashes\":{},\"max_symbolic_inputs\":{},\"max_decisions\":{},\"wall_s\":{:.3}}},",
        st.paths_done,
        st.paths_panic,
        st.paths_killed,
        st.forks,
        st.choices,
        st.queries,
        st.q_sat,
        st.q_unsat,
        st.cache_hits,
        st.solver_ns as f64 / 1e9,
        st.checks_const,
        st.checks_solver,
        st.insts,
        st.keccak_sym,
        st.keccak_conc,
        st.max_vars,
        st.max_trail,
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(o, "\"covers\":[{}],", f.covers.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", f.samples.values().map(|(w, t, p)| format!("{{\"inputs\":{},\"trace\":{},\"panics\":{}}}", words(w), words(t), p)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", cv.functions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"lines\":{{{}}},", cv.lines.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"ir_functions\":{},\"ir_blocks\":{},\"solver\":{}}}", cv.ir_funcs, cv.ir_blocks, js(&format!("z3 {}", z3::version())));
    o
}
