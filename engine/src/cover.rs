//! Which functions and source lines the executed IR came from.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};

fn subprogram(m: &Module, mut scope: u32) -> u32 {
    for _ in 0..64 {
        if m.dbg.sub.contains_key(&scope) {
            return scope;
        }
        match m.dbg.scope.get(&scope) {
            Some((p, _)) if *p != 0 => scope = *p,
            _ => return 0,
        }
    }
    0
}
fn file_of<'a>(m: &'a Module, scope: u32) -> &'a str {
    let f = m.dbg.scope.get(&scope).map(|x| x.1).unwrap_or(0);
    m.dbg.file.get(&f).map(|s| s.as_str()).unwrap_or("")
}
/// source position of an instruction, innermost first, in the analysed crate if any of the inlined positions is
pub fn locate(m: &Module, dbg: u32) -> String {
    let mut d = dbg;
    let mut first = String::new();
    for _ in 0..64 {
        let Some((line, scope, at)) = m.dbg.loc.get(&d) else { break };
        let f = file_of(m, *scope);
        let s = format!("{}:{}", f, line);
        if f.contains("/repo/src/") {
            return s;
        }
        if first.is_empty() {
            first = s;
        }
        if *at == 0 {
            break;
        }
        d = *at;
    }
    first
}
pub struct Cover {
    pub functions: BTreeSet<String>,
    pub lines: BTreeMap<String, BTreeSet<u32>>,
    pub ir_funcs: u64,
    pub ir_blocks: u64,
}
pub fn collect(m: &Module, visited: &[Vec<bool>]) -> Cover {
    let mut c = Cover { functions: Default::default(), lines: Default::default(), ir_funcs: 0, ir_blocks: 0 };
    let mut seen = BTreeSet::new();
    for (fi, f) in m.funcs.iter().enumerate() {
        if !visited[fi].iter().any(|b| *b) {
            continue;
        }
        c.ir_funcs += 1;
        for (b, v) in visited[fi].iter().enumerate() {
            if !*v {
                continue;
            }
            c.ir_blocks += 1;
            let start = f.block_start[b] as usize;
            let end = f.block_start.get(b + 1).map(|x| *x as usize).unwrap_or(f.insts.len());
            for i in start..end {
                let mut d = f.dbg.get(i).copied().unwrap_or(0);
                while d != 0 && seen.insert(d) {
                    let Some((line, scope, at)) = m.dbg.loc.get(&d) else { break };
                    let file = file_of(m, *scope);
                    if file.contains("/repo/src/") {
                        let short = file.split("/repo/").nth(1).unwrap_or(file).to_string();
                        c.lines.entry(short.clone()).or_default().insert(*line);
                        let s = subprogram(m, *scope);
                        if let Some((n, _, l)) = m.dbg.sub.get(&s) {
                            c.functions.insert(format!("{} {}:{}", demangle(n), short, l));
                        }
                    }
                    d = *at;
                }
            }
        }
    }
    c
}
/// readable path of a legacy-mangled name
pub fn demangle(n: &str) -> String {
    let Some(r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > r.len() {
            break;
        }
        parts.push(r[i..i + k].replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$u7b$", "{").replace("$u7d$", "}").replace("$C$", ",").replace("..", "::"));
        i += k;
    }
    if parts.last().map(|p| p.len() == 17 && p.starts_with('h')).unwrap_or(false) {
        parts.pop();
    }
    parts.join("::")
}
