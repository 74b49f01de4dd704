//! replay ENTRY PARAMS < lines of hexadecimal input words; prints one outcome line per input line.
use std::io::{BufRead, Write};
use trie_harness::native::{State, Stop, ST};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = a[1].clone();
    let params: Vec<u64> = a.get(2).map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
    let Some(f) = trie_harness::entry(&entry) else {
        println!("no entry {}", entry);
        std::process::exit(2)
    };
    let quiet = std::env::var("REPLAY_VERBOSE").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let inputs: Vec<u64> = l.split_whitespace().map(|w| u64::from_str_radix(w, 16).unwrap()).collect();
        let n = inputs.len();
        let params = params.clone();
        // own thread with the default stack of a spawned Rust thread times four (the main thread's 8 MB)
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            ST.with(|s| *s.borrow_mut() = State { inputs, params, ..Default::default() });
            let r = std::panic::catch_unwind(f);
            let notes = ST.with(|s| s.borrow().notes.join("; "));
            let line: String = ST.with(|s| {
                let s = s.borrow();
                let t: Vec<String> = s.trace.iter().map(|x| format!("{:x}", x)).collect();
                let t = t.join(" ");
                if s.ran_out {
                    return format!("DIVERGED ran out of inputs ({} recorded, {} used)", n, s.pos);
                }
                if s.assume_broken {
                    return "DIVERGED assumption does not hold".to_string();
                }
                if let Some(id) = s.failed {
                    return format!("FAIL {}", id);
                }
                match r {
                    Ok(()) => format!("OK {}", t),
                    Err(e) => {
                        if e.is::<Stop>() {
                            return "DIVERGED".to_string();
                        }
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let m: String = m.chars().map(|c| if c == '\n' { ' ' } else { c }).take(200).collect();
                        if s.expect_panic {
                            format!("PANIC-EXPECTED {}", t)
                        } else {
                            format!("PANIC {}", m)
                        }
                    }
                }
            });
            format!("{}\t{}", line, notes)
        });
        let out = h.unwrap().join().unwrap_or_else(|_| "DIVERGED".to_string());
        println!("{}", out);
        std::io::stdout().flush().unwrap();
    }
}
