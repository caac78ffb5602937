//! Source positions and functions from debug metadata.
use crate::ir::Module;
use std::collections::BTreeSet;

fn field(l: &str, k: &str) -> Option<u32> {
    let i = l.find(&format!("{}: !", k))?;
    let s = &l[i + k.len() + 3..];
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn num(l: &str, k: &str) -> Option<u32> {
    let i = l.find(&format!("{}: ", k))?;
    let s = &l[i + k.len() + 2..];
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn text(l: &str, k: &str) -> Option<String> {
    let i = l.find(&format!("{}: \"", k))?;
    let s = &l[i + k.len() + 3..];
    Some(s[..s.find('"')?].to_string())
}
fn line<'a>(m: &'a Module, n: u32) -> Option<&'a str> {
    m.meta.get(&n).map(|i| m.lines[*i].as_str())
}
/// (function, file) of a scope
pub fn subprogram(m: &Module, mut s: u32) -> Option<(String, String)> {
    for _ in 0..50 {
        let l = line(m, s)?;
        if l.contains("!DISubprogram(") {
            let f = field(l, "file").and_then(|f| line(m, f)).and_then(|f| text(f, "filename")).unwrap_or_default();
            let f = f.split("/@/").next().unwrap_or("").to_string();
            let ln = text(l, "linkageName").map(|x| crate::exec::short(&x));
            return Some((ln.or(text(l, "name")).unwrap_or_default(), f));
        }
        s = field(l, "scope")?;
    }
    None
}
pub fn loc(m: &Module, d: u32) -> String {
    if d == 0 {
        return String::new();
    }
    let l = match line(m, d) {
        Some(l) => l,
        None => return String::new(),
    };
    let f = field(l, "scope").and_then(|s| subprogram(m, s)).unwrap_or_default();
    format!("{}:{}", f.1, num(l, "line").unwrap_or(0))
}
pub fn functions(m: &Module, seen: impl Iterator<Item = u32>) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    let mut done = std::collections::HashSet::new();
    let mut todo: Vec<u32> = seen.collect();
    while let Some(d) = todo.pop() {
        if !done.insert(d) {
            continue;
        }
        if let Some(l) = line(m, d) {
            if let Some(s) = field(l, "scope") {
                if let Some(p) = subprogram(m, s) {
                    out.insert((p.1, p.0));
                }
            }
            if let Some(i) = field(l, "inlinedAt") {
                todo.push(i);
            }
        }
    }
    out
}
