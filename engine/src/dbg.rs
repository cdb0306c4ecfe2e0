//! Debug-location lookup: which source function and line an instruction came from.

use std::collections::HashMap;

pub fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    while let Some(i) = s[from..].find(&pat) {
        let at = from + i;
        let ok = at == 0 || matches!(s.as_bytes()[at - 1], b' ' | b'(');
        if ok {
            let r = &s[at + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return Some(&q[..q.find('"').unwrap_or(q.len())]);
            }
            let e = r.bytes().position(|b| b == b',' || b == b')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = at + pat.len();
    }
    None
}

fn id(s: &str) -> u32 {
    s.trim_start_matches('!').parse().unwrap_or(0)
}

#[derive(Clone, Debug)]
pub struct Loc {
    pub name: String,
    pub linkage: String,
    pub file: String,
    pub line: u32,
    pub def_line: u32,
}

pub fn resolve(meta: &HashMap<u32, String>, mut dbg: u32) -> Vec<Loc> {
    let mut out = vec![];
    while dbg != 0 {
        let l = match meta.get(&dbg) {
            Some(l) => l,
            None => break,
        };
        let line = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = field(l, "scope").map(id).unwrap_or(0);
        let mut found = None;
        for _ in 0..64 {
            match meta.get(&sc) {
                Some(s) if s.contains("DISubprogram(") => {
                    let name = field(s, "name").unwrap_or("?").to_string();
                    let linkage = field(s, "linkageName").unwrap_or("").to_string();
                    let def_line = field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
                    let f = field(s, "file").map(id).unwrap_or(0);
                    let file = meta
                        .get(&f)
                        .map(|f| {
                            let n = field(f, "filename").unwrap_or("?");
                            let d = field(f, "directory").unwrap_or("");
                            if n.starts_with('/') || d.is_empty() {
                                n.to_string()
                            } else {
                                format!("{}/{}", d, n)
                            }
                        })
                        .unwrap_or_default();
                    found = Some(Loc { name, linkage, file, line, def_line });
                    break;
                }
                Some(s) => sc = field(s, "scope").map(id).unwrap_or(0),
                None => break,
            }
        }
        if let Some(f) = found {
            out.push(f);
        }
        dbg = field(l, "inlinedAt").map(id).unwrap_or(0);
    }
    out
}

pub fn chain(meta: &HashMap<u32, String>, dbg: u32) -> Vec<String> {
    resolve(meta, dbg).into_iter().map(|l| format!("{} ({}:{})", l.name, l.file, l.line)).collect()
}

/// readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut parts: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if k > 1 && st + k <= b.len() && n[st..st + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && b[st].is_ascii_alphabetic() | (b[st] == b'_') {
                parts.push(n[st..st + k].to_string());
                i = st + k;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}
