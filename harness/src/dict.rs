//! Workload dictionary: string and number literals that occur in the source under test. Literals of the
//! hand-written files are all used; of the generated files only those the pinned commit did not have
//! (the committed list /verif/schema/literals.json). It only steers input generation, never an oracle.
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashSet};
use std::path::Path;

#[derive(Default, Debug)]
pub struct Dict {
    pub strings: Vec<String>,
    pub new_strings: Vec<String>,
    pub ints: Vec<u64>,
    pub new_ints: Vec<u64>,
    pub new_decimals: Vec<String>,
}

pub fn literals(src: &str) -> (BTreeSet<String>, BTreeSet<String>) {
    let b: Vec<char> = src.chars().collect();
    let mut strs = BTreeSet::new();
    let mut nums = BTreeSet::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == 'r' && (b.get(i + 1) == Some(&'"') || (b.get(i + 1) == Some(&'#') && b.get(i + 2) == Some(&'"'))) {
            let hash = b[i + 1] == '#';
            i += if hash { 3 } else { 2 };
            let mut s = String::new();
            while i < b.len() && !(b[i] == '"' && (!hash || b.get(i + 1) == Some(&'#'))) {
                s.push(b[i]);
                i += 1;
            }
            i += 1;
            strs.insert(s);
        } else if c == '"' {
            i += 1;
            let mut s = String::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'u' => {
                            let h: String = b[i + 2..].iter().take_while(|c| **c != '}').collect();
                            if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(ch)
                            }
                            i += h.len() + 2;
                        }
                        '\n' => {}
                        x => s.push(x),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            strs.insert(s);
        } else if c == '\'' && b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' {
            strs.insert(b[i + 1].to_string());
            i += 3;
        } else if c == '\'' && b.get(i + 1) == Some(&'\\') && b.get(i + 3) == Some(&'\'') {
            strs.insert(match b[i + 2] { 'n' => "\n".into(), 't' => "\t".into(), 'r' => "\r".into(), x => x.to_string() });
            i += 4;
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_' || (b[i] == '.' && b.get(i + 1).is_some_and(|x| x.is_ascii_digit()))) {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            let t = s.trim_end_matches(|c: char| c.is_ascii_alphabetic() && !s.starts_with("0x")).to_string();
            let cut = ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "f64"].iter().find_map(|x| s.strip_suffix(x)).unwrap_or(&t).to_string();
            // constant products and shifts: 256 * 1024, 1 << 20
            let mut k = i;
            while k < b.len() && b[k].is_whitespace() {
                k += 1;
            }
            let op = if b.get(k) == Some(&'*') && b.get(k + 1) != Some(&'*') { 1 } else if b.get(k) == Some(&'<') && b.get(k + 1) == Some(&'<') { 2 } else { 0 };
            if op > 0 {
                k += op;
                while k < b.len() && b[k].is_whitespace() {
                    k += 1;
                }
                let rest: String = b[k..].iter().take_while(|c| c.is_ascii_digit() || **c == '_').filter(|c| **c != '_').collect();
                if let (Some(x), Ok(y)) = (num(&cut), rest.parse::<u64>()) {
                    let v = if op == 1 { x.checked_mul(y) } else if y < 40 { (x < 1 << 20).then(|| x << y) } else { None };
                    if let Some(v) = v {
                        nums.insert(v.to_string());
                    }
                    // a * b * c
                    let mut k2 = k + rest.len();
                    while k2 < b.len() && (b[k2].is_whitespace() || b[k2] == '*') {
                        k2 += 1;
                    }
                    let third: String = b[k2..].iter().take_while(|c| c.is_ascii_digit()).collect();
                    if let (Some(v), Ok(z)) = (v, third.parse::<u64>()) {
                        nums.extend(v.checked_mul(z).map(|x| x.to_string()));
                    }
                }
            }
            nums.insert(cut);
        } else {
            i += 1;
        }
    }
    (strs, nums)
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for e in es {
            if e.is_dir() {
                walk(&e, out)
            } else if e.extension().is_some_and(|x| x == "rs") {
                out.push(e)
            }
        }
    }
}
/// every literal of the tree, for the committed baseline
pub fn all_literals(src: &Path) -> Value {
    let mut files = vec![];
    walk(src, &mut files);
    let (mut s, mut n) = (BTreeSet::new(), BTreeSet::new());
    for f in files {
        let (a, b) = literals(&std::fs::read_to_string(f).unwrap_or_default());
        s.extend(a);
        n.extend(b);
    }
    json!({"strings": s, "numbers": n})
}
fn num(s: &str) -> Option<u64> {
    let n: u64 = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).ok()? } else { s.parse().ok()? };
    // nothing generated here is that large
    (n < 1 << 53).then_some(n)
}
impl Dict {
    pub fn load(src: &Path) -> Dict {
        let base: Value = serde_json::from_str(include_str!("../../schema/literals.json")).unwrap();
        let get = |k: &str| -> HashSet<String> { base[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        let (bs, bn) = (get("strings"), get("numbers"));
        let mut files = vec![];
        walk(src, &mut files);
        let mut d = Dict::default();
        let (mut hs, mut ns, mut hi, mut ni, mut nd) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for f in files {
            let generated = f.parent().is_some_and(|p| p.ends_with("document") || p.ends_with("header"));
            let (s, n) = literals(&std::fs::read_to_string(&f).unwrap_or_default());
            for x in s {
                if x.is_empty() || x.chars().count() > 200 {
                    continue;
                }
                if !bs.contains(&x) {
                    ns.insert(x.clone());
                }
                if !generated {
                    hs.insert(x);
                }
            }
            for x in n {
                if !bn.contains(&x) {
                    match num(&x) {
                        Some(v) => {
                            ni.insert(v);
                        }
                        None => {
                            nd.insert(x.clone());
                        }
                    }
                }
                if !generated {
                    if let Some(v) = num(&x) {
                        hi.insert(v);
                    }
                }
            }
        }
        d.strings = hs.into_iter().collect();
        d.new_strings = ns.into_iter().collect();
        d.ints = hi.into_iter().collect();
        d.new_ints = ni.into_iter().collect();
        // plain notation, at most 15 digits
        d.new_decimals = nd.into_iter().filter(|x| x.len() <= 16 && x.bytes().filter(|b| b.is_ascii_digit()).count() <= 15 && x.bytes().all(|b| b.is_ascii_digit() || b == b'.') && x.parse::<f64>().is_ok()).collect();
        d
    }
    pub fn describe(&self) -> Value {
        json!({"strings": self.strings.len(), "integers": self.ints.len(), "not_in_pinned_commit": self.new_strings.len() + self.new_ints.len() + self.new_decimals.len()})
    }
    /// sizes worth trying (list lengths, text lengths) suggested by the source
    pub fn sizes(&self, max: u64) -> Vec<usize> {
        let mut v: BTreeSet<usize> = BTreeSet::new();
        for &n in self.new_ints.iter() {
            for k in [n.saturating_sub(1), n, n + 1] {
                if k >= 1 && k <= max {
                    v.insert(k as usize);
                }
            }
        }
        v.into_iter().collect()
    }
}
