//! C34, C35: the repository's own rewriting scripts, run as they are on scratch copies
use crate::fw::*;
use crate::rng::Rng;
use serde::Deserialize;
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;

fn repo() -> PathBuf {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == "--repo").and_then(|i| a.get(i + 1)).map(PathBuf::from).unwrap_or_else(|| "/repo".into())
}
struct Scratch(PathBuf);
impl Scratch {
    fn new(c: &Case) -> Scratch {
        let p = std::env::temp_dir().join(format!("mxmon-tools-{}-{}-{}", std::process::id(), c.stream.replace(['#', ' '], "_"), c.idx));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// exit code, stdout, stderr
fn python(script: &Path, args: &[String], dir: &Path) -> (i32, String, String) {
    let o = Command::new("python3").arg("-B").arg(script).args(args).current_dir(dir).env("PYTHONDONTWRITEBYTECODE", "1").env("PYTHONUTF8", "1").output().expect("python3 runs");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
/// every file below `d` with its bytes
fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, at: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{at}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() { walk(&e.path(), &format!("{n}/"), m) } else { m.insert(n, std::fs::read(e.path()).unwrap_or_default()); }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, "", &mut m);
    m
}
fn put(d: &Path, files: &BTreeMap<String, Vec<u8>>) {
    let _ = std::fs::remove_dir_all(d);
    for (n, b) in files {
        let p = d.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
}
/// first differing line of two directory contents
fn dir_diff(want: &BTreeMap<String, Vec<u8>>, got: &BTreeMap<String, Vec<u8>>) -> Option<Value> {
    if let Some(n) = want.keys().find(|n| !got.contains_key(*n)).or(got.keys().find(|n| !want.contains_key(*n))) {
        return Some(json!({"file": n, "present_before": want.contains_key(n), "present_after": got.contains_key(n)}));
    }
    let n = want.keys().find(|n| want[*n] != got[*n])?;
    let (a, b) = (String::from_utf8_lossy(&want[n]), String::from_utf8_lossy(&got[n]));
    let i = a.lines().zip(b.lines()).position(|(x, y)| x != y);
    Some(json!({"file": n, "line": i.map(|i| i + 1), "expected": i.map(|i| a.lines().nth(i)), "found": i.map(|i| b.lines().nth(i)), "bytes": [a.len(), b.len()]}))
}

// C34 -----------------------------------------------------------------
#[derive(Clone, Debug)]
struct Conf {
    always: HashSet<String>,
    vec_patterns: Vec<String>,
    parents: Vec<String>,
    min_fields: i64,
    max_depth: i64,
    size: bool,
    pattern: bool,
    nesting: bool,
}
impl Conf {
    fn from(v: &Value) -> Conf {
        let l = |k: &str| v[k].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect::<Vec<_>>();
        let b = |k: &str| v[k].as_bool().unwrap_or(true);
        Conf { always: l("always_box_types").into_iter().collect(), vec_patterns: l("box_in_vec_patterns"), parents: l("box_vec_if_parent_matches"), min_fields: v["min_fields_to_box"].as_i64().unwrap_or(10), max_depth: v["max_nesting_depth"].as_i64().unwrap_or(4), size: b("use_size_heuristic"), pattern: b("use_pattern_matching"), nesting: b("use_nesting_analysis") }
    }
    fn json(&self) -> Value {
        let mut a: Vec<&String> = self.always.iter().collect();
        a.sort();
        json!({"always_box_types": a, "box_in_vec_patterns": self.vec_patterns, "box_vec_if_parent_matches": self.parents, "min_fields_to_box": self.min_fields, "max_nesting_depth": self.max_depth, "use_size_heuristic": self.size, "use_pattern_matching": self.pattern, "use_nesting_analysis": self.nesting})
    }
}
const PRIM: [&str; 15] = ["String", "bool", "f64", "f32", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "usize", "isize", "char"];
/// (line number, struct, type text) of every field
fn fields(text: &str) -> Vec<(usize, String, String)> {
    let (mut v, mut cur) = (vec![], None::<String>);
    for (i, l) in text.lines().enumerate() {
        if let Some(r) = l.strip_prefix("pub struct ") {
            cur = r.strip_suffix('{').map(|n| n.trim().to_string());
        } else if l.starts_with('}') {
            cur = None;
        } else if let (Some(s), Some(r)) = (&cur, l.trim_start().strip_prefix("pub "))
            && let Some((n, t)) = r.split_once(':')
            && n.chars().all(|k| k.is_ascii_alphanumeric() || k == '_')
        {
            v.push((i, s.clone(), t.trim().trim_end_matches(',').to_string()));
        }
    }
    v
}
fn core(t: &str) -> &str {
    let t = t.trim_start_matches("Option<").trim_start_matches("Vec<").trim_start_matches("Box<");
    t.trim_end_matches('>')
}
/// the text the step has to produce, and how many fields it boxes
fn expected(text: &str, c: &Conf) -> (String, usize) {
    let fs = fields(text);
    let mut size: HashMap<&str, i64> = HashMap::new();
    let mut kids: HashMap<&str, Vec<&str>> = HashMap::new();
    for (_, s, t) in &fs {
        *size.entry(s).or_insert(0) += 1;
        kids.entry(s).or_default().push(core(t));
    }
    for l in text.lines() {
        if let Some(s) = l.strip_prefix("pub struct ").and_then(|r| r.strip_suffix('{')) {
            size.entry(s.trim()).or_insert(0);
            kids.entry(s.trim()).or_default();
        }
    }
    fn depth<'a>(s: &'a str, kids: &HashMap<&'a str, Vec<&'a str>>, memo: &mut HashMap<&'a str, i64>) -> i64 {
        if let Some(d) = memo.get(s) {
            return *d;
        }
        let mut d = 0;
        for k in kids.get(s).into_iter().flatten() {
            if kids.contains_key(k) && !PRIM.contains(k) {
                d = d.max(1 + depth(k, kids, memo));
            }
        }
        memo.insert(s, d);
        d
    }
    let mut memo = HashMap::new();
    let re = |p: &[String]| p.iter().map(|p| regex::Regex::new(&format!("^(?:{p})")).unwrap()).collect::<Vec<_>>();
    let (vp, pp) = (re(&c.vec_patterns), re(&c.parents));
    let mut lines: Vec<String> = text.lines().map(str::to_string).collect();
    let mut n = 0;
    for (i, s, t) in &fs {
        let k = core(t);
        if PRIM.contains(&k) || t.contains("Box<") {
            continue;
        }
        let vec = t.contains("Vec<");
        let boxed = c.always.contains(k)
            || vec && c.pattern && (vp.iter().any(|p| p.is_match(k)) || pp.iter().any(|p| p.is_match(s)))
            || vec && c.size && size.get(k).is_some_and(|n| *n >= c.min_fields)
            || vec && c.nesting && kids.contains_key(k) && depth(k, &kids, &mut memo) >= c.max_depth;
        if !boxed {
            continue;
        }
        let new = if vec { t.replace(&format!("Vec<{k}>"), &format!("Vec<Box<{k}>>")) } else if t == k { format!("Box<{k}>") } else { continue };
        let l = &lines[*i];
        let (head, tail) = l.split_once(':').unwrap();
        lines[*i] = format!("{head}:{}", tail.replacen(t, &new, 1));
        n += 1;
    }
    let mut out = lines.join("\n");
    if text.ends_with('\n') {
        out.push('\n');
    }
    (out, n)
}
fn unbox(text: &str, keep: &mut dyn FnMut() -> bool) -> String {
    let re = regex::Regex::new(r"Box<(\w+)>").unwrap();
    let v: Vec<String> = text.lines().map(|l| if l.trim_start().starts_with("pub ") && l.contains("Box<") && !keep() { re.replace(l, "$1").into_owned() } else { l.to_string() }).collect();
    v.join("\n") + if text.ends_with('\n') { "\n" } else { "" }
}
fn gen_conf(r: &mut Rng, names: &[String]) -> Conf {
    let pats = [r".*Entry\d+$", r".*Transaction\d+$", r".*Details\d+$", r".*Parties\d+$", r".*Report\d+$", r"Party", r"[A-Z][a-z]+1$", r".*", r"Ac+ount\d", r"^Cash.*\d{2}$", r"Entry|Details"];
    let some = |r: &mut Rng| (0..r.below(4)).map(|_| r.pick(&pats[..]).to_string()).collect::<Vec<_>>();
    Conf {
        always: (0..r.below(6)).map(|_| r.pick(names).clone()).collect(),
        vec_patterns: some(r),
        parents: some(r),
        min_fields: r.range(1, 14) as i64,
        max_depth: r.range(1, 7) as i64,
        size: r.chance(0.5),
        pattern: r.chance(0.5),
        nesting: r.chance(0.5),
    }
}
const STEMS: [&str; 12] = ["ReportEntry", "EntryDetails", "EntryTransaction", "TransactionParties", "Party", "Account", "CashAccount", "AccountReport", "Statement", "Remittance", "Details", "Amount"];
fn gen_source(r: &mut Rng) -> (String, Vec<String>) {
    let n = r.range(1, 14);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let k = format!("{}{}", r.pick(&STEMS), ["1", "10", "101", "11", "2", "V08", "92"][r.below(7)]);
        if !names.contains(&k) {
            names.push(k);
        }
    }
    let fnames = ["ntry", "ntry_dtls", "ntry_dtls_x", "tx", "txs", "tx_dtls", "id", "amt", "a", "ab", "acct", "acct_id", "nm", "b2", "val", "sts", "cd", "dt"];
    let mut t = String::from("// Generated by a made-up generator\n// Vec<ReportEntry101> and pub x: ReportEntry101, in a comment\nuse crate::common::*;\n\n");
    for (i, s) in names.iter().enumerate() {
        t += &format!("// {s}: as <b>defined</b> é…\n#[cfg_attr(feature = \"derive_debug\", derive(Debug))]\n#[derive(Clone, PartialEq)]\npub struct {s} {{\n");
        let k = r.below(16);
        let mut have: Vec<&str> = vec![];
        while have.len() < k.min(fnames.len()) {
            let f = *r.pick(&fnames);
            if !have.contains(&f) {
                have.push(f);
            }
        }
        for f in have {
            // only later structs, so that nesting has no cycle; sometimes a type not defined here
            let ty = match r.below(5) {
                0 => r.pick(&["String", "f64", "bool", "u32"]).to_string(),
                1 => format!("{}{}", r.pick(&STEMS), r.below(300)),
                _ if i + 1 < names.len() => names[r.range(i + 1, names.len() - 1)].clone(),
                _ => "String".into(),
            };
            // a type defined nowhere must not be one of the earlier structs
            let ty = if names[..=i].contains(&ty) { "String".into() } else { ty };
            let ty = match r.below(9) {
                0 | 1 => ty,
                2 => format!("Option<{ty}>"),
                3 | 4 => format!("Vec<{ty}>"),
                5 | 6 => format!("Option<Vec<{ty}>>"),
                7 => format!("Vec<Box<{ty}>>"),
                _ => format!("Box<{ty}>"),
            };
            if r.chance(0.7) {
                t += &format!("    #[serde(rename = \"{}\", skip_serializing_if = \"Option::is_none\")]\n", f.to_uppercase());
            }
            if r.chance(0.1) {
                t += "    // holds Vec<ReportEntry101> or ReportEntry101,\n";
            }
            t += &format!("    pub {f}: {ty},\n");
        }
        t += &format!("}}\n\nimpl Validate for {s} {{\n    fn validate(&self) {{\n        let v: Vec<{s}> = Vec::new();\n        let pub_tx: {s};\n        for item in &self.ntry {{ item.validate() }}\n    }}\n}}\n\n");
        if r.chance(0.3) {
            t += &format!("#[derive(Clone)]\npub enum {s}Code {{\n    Tx,\n    Ntry(Vec<{s}>),\n}}\n\n");
        }
    }
    (t, names)
}
fn summary(out: &str) -> Option<(usize, usize)> {
    let l = out.lines().find(|l| l.starts_with("Summary: "))?;
    let n: Vec<usize> = l.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    Some((*n.first()?, *n.get(1)?))
}
fn box_case(c: &mut Case, files: &BTreeMap<String, Vec<u8>>, conf: &Conf, over: &[String], eff: &Conf, what: &str, strict: bool) {
    let script = repo().join("apply-box-wrapping.py");
    let sc = Scratch::new(c);
    let d = sc.0.join("src");
    put(&d, files);
    std::fs::write(sc.0.join("conf.json"), conf.json().to_string()).unwrap();
    let base: Vec<String> = ["src", "--config", "conf.json"].iter().map(|x| x.to_string()).chain(over.iter().cloned()).collect();
    let (mut want, mut n, mut m) = (files.clone(), 0, 0);
    for (f, b) in want.iter_mut() {
        if f.contains('/') || f == "mod.rs" || !f.ends_with(".rs") {
            continue;
        }
        let (t, k) = expected(std::str::from_utf8(b).unwrap(), eff);
        *b = t.into_bytes();
        n += k;
        m += (k > 0) as usize;
    }
    if strict && n > 0 {
        let d = dir_diff(files, &want);
        c.fail("C34|committed sources", json!({"fields_still_to_be_boxed": n, "first": d}));
    }
    c.eval(format!("{what}|{}|{n}|{:?}", conf.json(), over).as_bytes());
    c.count("fields_to_be_boxed", n as u64);
    c.count("files", files.len() as u64);
    let detail = |x: Value| json!({"input": what, "configuration": conf.json(), "options": over, "observed": x});
    // dry run: nothing changes, the same summary
    let mut dry = base.clone();
    dry.push("--dry-run".into());
    if c.rng.chance(0.5) {
        dry.push("--verbose".into());
    }
    let (rc, out, err) = python(&script, &dry, &sc.0);
    if let Some(x) = dir_diff(files, &tree(&d)) {
        return c.fail("C34|dry run changes files", detail(x));
    }
    if rc != 0 || summary(&out) != Some((n, m)) {
        return c.fail("C34|dry run report", detail(json!({"exit": rc, "summary": summary(&out), "expected": [n, m], "stderr": clip(&err, 400)})));
    }
    // the saved configuration selects the same
    let use_saved = c.rng.chance(0.3);
    let mut args = base.clone();
    if use_saved {
        let mut save = dry.clone();
        save.extend(["--save-config".into(), "saved.json".into()]);
        let (rc, _, err) = python(&script, &save, &sc.0);
        let v = std::fs::read_to_string(sc.0.join("saved.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        if rc != 0 || v.as_ref().is_none_or(|v| Conf::from(v).json() != eff.json()) {
            return c.fail("C34|saved configuration", detail(json!({"exit": rc, "saved": v, "expected": eff.json(), "stderr": clip(&err, 400)})));
        }
        args = ["src", "--config", "saved.json"].iter().map(|x| x.to_string()).collect();
        c.count("saved_configurations", 1);
    }
    let (rc, out, err) = python(&script, &args, &sc.0);
    let after = tree(&d);
    if let Some(x) = dir_diff(&want, &after) {
        return c.fail("C34|result", detail(x));
    }
    if rc != 0 || summary(&out) != Some((n, m)) {
        return c.fail("C34|report", detail(json!({"exit": rc, "summary": summary(&out), "expected": [n, m], "stderr": clip(&err, 400)})));
    }
    // again: nothing more
    let (rc, out, err) = python(&script, &args, &sc.0);
    if let Some(x) = dir_diff(&after, &tree(&d)) {
        return c.fail("C34|second run changes files", detail(x));
    }
    if rc != 0 || summary(&out) != Some((0, 0)) {
        return c.fail("C34|second run report", detail(json!({"exit": rc, "summary": summary(&out), "stderr": clip(&err, 400)})));
    }
    c.saw("inputs", what.as_bytes());
    c.sample(|| detail(json!({"fields_boxed": n, "files_changed": m})));
}
pub fn c34(run: &Run) {
    run.rule("the step run on copies of the committed generated sources with any part of their boxes taken away puts exactly those back; on made-up sources under any configuration it produces exactly the text the configuration asks for; run again it changes nothing; a dry run changes nothing and reports the same; mod.rs, other files and sub-directories stay untouched");
    let mut docs = tree(&repo().join("src/document"));
    docs.retain(|_, b| b.windows(4).any(|w| w == b"Box<") || b.len() < 60_000);
    let conf = std::fs::read_to_string(repo().join("box-config.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
    let Some(conf) = conf else {
        run.inconclusive("box-config.json cannot be read");
        return;
    };
    let conf = Conf::from(&conf);
    let names: Vec<String> = STEMS.iter().flat_map(|s| ["1", "10", "101", "92"].map(|n| format!("{s}{n}"))).collect();
    let all = tree(&repo().join("src/document"));
    let names_re = regex::Regex::new(&format!(r"\b({})(V08|\d+)\b", STEMS.join("|"))).unwrap();
    run.par("committed", if run.thorough() { 60 } else { 16 }, |c| {
        let before: BTreeMap<String, Vec<u8>> = all.iter().map(|(n, b)| {
            let p = if c.idx == 0 { 1.0 } else if c.idx == 1 { 0.0 } else { c.rng.below(100) as f64 / 100.0 };
            let mut r = Rng::new(c.rng.next());
            (n.clone(), unbox(std::str::from_utf8(b).unwrap(), &mut || r.chance(p)).into_bytes())
        }).collect();
        box_case(c, &before, &conf, &[], &conf, &format!("committed sources, boxes removed {}", c.idx), c.idx == 0);
    });
    run.rounds(|_| {
        run.par("committed under other configurations", 24, |c| {
            let mut before = docs.clone();
            let drop: Vec<String> = before.keys().filter(|_| c.rng.chance(0.6)).cloned().collect();
            for d in drop {
                before.remove(&d);
            }
            let mut r = Rng::new(c.rng.next());
            for b in before.values_mut() {
                *b = unbox(std::str::from_utf8(b).unwrap(), &mut || r.chance(0.2)).into_bytes();
            }
            let here: Vec<String> = before.values().flat_map(|b| fields(std::str::from_utf8(b).unwrap())).map(|f| core(&f.2).to_string()).collect();
            if here.is_empty() {
                return;
            }
            let mut k = gen_conf(&mut c.rng, &here);
            // modules refer to types of other modules only through common; sizes and depths are per file
            k.size = false;
            k.nesting = k.nesting && before.len() == 1;
            let what = format!("{} committed files", before.len());
            box_case(c, &before, &k, &[], &k.clone(), &what, false);
        });
        run.par("made", 220, |c| {
            let mut files = BTreeMap::new();
            let mut all = names.clone();
            let same = c.rng.chance(0.3);
            let nf = if same { 2 } else { c.rng.range(1, 3) };
            for i in 0..nf {
                let (mut t, mut n) = gen_source(&mut c.rng);
                if !same {
                    // distinct type names per file
                    let own = |t: &str| names_re.replace_all(t, format!("${{1}}{i}${{2}}")).into_owned();
                    t = own(&t);
                    n.iter_mut().for_each(|x| *x = own(x));
                }
                all.extend(n);
                files.insert(format!("m{i}_001_0{i}.rs"), t.into_bytes());
            }
            for n in ["mod.rs", "notes.txt", "sub/inner.rs", "old.rs.bak"] {
                if c.rng.chance(0.5) {
                    files.insert(n.into(), gen_source(&mut c.rng).0.into_bytes());
                }
            }
            let mut conf = gen_conf(&mut c.rng, &all);
            // how large a type is that only another file defines is not claimed
            conf.size &= !same;
            let mut eff = conf.clone();
            let mut over: Vec<String> = vec![];
            if c.rng.chance(0.2) {
                eff.min_fields = c.rng.range(1, 15) as i64;
                over.extend(["--min-fields".into(), eff.min_fields.to_string()]);
            }
            if c.rng.chance(0.2) {
                eff.max_depth = c.rng.range(1, 8) as i64;
                over.extend(["--max-depth".into(), eff.max_depth.to_string()]);
            }
            for (f, b) in [("--no-patterns", &mut eff.pattern), ("--no-size", &mut eff.size), ("--no-nesting", &mut eff.nesting)] {
                if c.rng.chance(0.1) {
                    *b = false;
                    over.push(f.into());
                }
            }
            let what = format!("made {} {}", c.stream, c.idx);
            box_case(c, &files, &conf, &over, &eff, &what, false);
        });
    });
    // no directory: refused, nothing made
    run.par("no directory", 1, |c| {
        let sc = Scratch::new(c);
        let (rc, out, _) = python(&repo().join("apply-box-wrapping.py"), &["missing".to_string()], &sc.0);
        c.eval(b"missing");
        if rc == 0 || !tree(&sc.0).is_empty() {
            c.fail("C34|missing directory", json!({"exit": rc, "stdout": clip(&out, 300)}));
        }
    });
}

// C35 -----------------------------------------------------------------
/// JSON with the order of its keys
#[derive(Clone, Debug)]
enum Oj {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Arr(Vec<Oj>),
    Obj(Vec<(String, Oj)>),
}
impl PartialEq for Oj {
    fn eq(&self, o: &Oj) -> bool {
        match (self, o) {
            (Oj::Null, Oj::Null) => true,
            (Oj::Bool(a), Oj::Bool(b)) => a == b,
            (Oj::Int(a), Oj::Int(b)) => a == b,
            // the reader here may be off by one unit in the last place
            (Oj::Float(a), Oj::Float(b)) => a == b || (a - b).abs() <= 1e-15 * a.abs(),
            (Oj::Str(a), Oj::Str(b)) => a == b,
            (Oj::Arr(a), Oj::Arr(b)) => a == b,
            (Oj::Obj(a), Oj::Obj(b)) => a == b,
            _ => false,
        }
    }
}
impl<'de> Deserialize<'de> for Oj {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Oj, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Oj;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_unit<E>(self) -> Result<Oj, E> {
                Ok(Oj::Null)
            }
            fn visit_bool<E>(self, v: bool) -> Result<Oj, E> {
                Ok(Oj::Bool(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Oj, E> {
                Ok(Oj::Int(v as i128))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Oj, E> {
                Ok(Oj::Int(v as i128))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Oj, E> {
                Ok(Oj::Float(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Oj, E> {
                Ok(Oj::Str(v.into()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Oj, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Oj::Arr(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Oj, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Oj::Obj(v))
            }
        }
        d.deserialize_any(V)
    }
}
fn quote(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    let esc = r.chance(0.3);
    for k in s.chars() {
        match k {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            k if (k as u32) < 0x20 => o += &format!("\\u{:04x}", k as u32),
            k if !k.is_ascii() && esc => k.encode_utf16(&mut [0; 2]).iter().for_each(|u| o += &format!("\\u{u:04x}")),
            '/' if esc => o += "\\/",
            k => o.push(k),
        }
    }
    o + "\""
}
fn write(v: &Oj, r: &mut Rng, o: &mut String) {
    let ws = |r: &mut Rng, o: &mut String| {
        if r.chance(0.3) {
            o.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
        }
    };
    match v {
        Oj::Null => o.push_str("null"),
        Oj::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Oj::Int(i) => o.push_str(&i.to_string()),
        Oj::Float(f) => o.push_str(&if r.chance(0.3) { format!("{f:e}") } else { format!("{f:?}") }),
        Oj::Str(s) => o.push_str(&quote(s, r)),
        Oj::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(r, o);
                write(x, r, o);
                ws(r, o);
            }
            o.push(']');
        }
        Oj::Obj(a) => {
            o.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(r, o);
                o.push_str(&quote(k, r));
                ws(r, o);
                o.push(':');
                write(x, r, o);
                ws(r, o);
            }
            o.push('}');
        }
    }
}
const OPS: [&str; 24] = ["if", "and", "or", "var", "==", "!=", ">", "<", ">=", "<=", "in", "cat", "substr", "map", "filter", "reduce", "!", "!!", "+", "merge", "fake", "switch", "missing", "preserve"];
fn gen_str(r: &mut Rng) -> String {
    let n = if r.chance(0.1) { r.range(60, 200) } else { r.below(20) };
    (0..n).map(|_| match r.below(14) {
        0 => *r.pick(&['"', '\\', '/', '\n', '\t', '\u{1}', '\u{8}', '\u{7f}', '\u{2028}', '\r']),
        1 => *r.pick(&['é', '€', '中', '😀', '\u{feff}', '\u{e000}', 'ß', '\u{200b}']),
        2 => *r.pick(&['{', '}', '[', ']', ',', ':', ' ', '#', '\'', '<']),
        _ => (b'a' + r.below(26) as u8) as char,
    }).collect()
}
/// rules within rules, often of the same kind
fn gen_logic(r: &mut Rng, depth: usize, above: &str) -> Oj {
    if depth == 0 || r.chance(0.15) {
        return match r.below(4) {
            0 => Oj::Obj(vec![("var".into(), Oj::Str((0..r.range(1, 60)).map(|_| *r.pick(&['a', 'b', '.', '0'])).collect()))]),
            1 => gen_json(r, 1),
            _ => gen_json(r, 0),
        };
    }
    let op = if !above.is_empty() && r.chance(0.4) { above.to_string() } else { r.pick(&["and", "or", "if", "!", "==", "!=", "cat", "in", "and", "or", "if", "+", "map"]).to_string() };
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5]);
    let same = gen_logic(r, depth - 1, &op);
    let a: Vec<Oj> = (0..n).map(|_| if r.chance(0.15) { same.clone() } else { gen_logic(r, depth - 1, &op) }).collect();
    let v = vec![(op, if n == 1 && r.chance(0.4) { a.into_iter().next().unwrap() } else { Oj::Arr(a) })];
    if r.chance(0.1) { Oj::Arr(vec![Oj::Obj(v), gen_logic(r, depth - 1, "")]) } else { Oj::Obj(v) }
}
fn gen_json(r: &mut Rng, depth: usize) -> Oj {
    let k = if depth == 0 { r.below(5) } else { r.below(15) };
    match k {
        5 if depth > 1 => {
            let d = r.range(1, 4);
            gen_logic(r, d, "")
        }
        13 | 14 if depth > 1 => {
            let d = r.range(2, 4);
            gen_logic(r, d, "and")
        }
        0 => Oj::Str(gen_str(r)),
        1 => Oj::Int(match r.below(4) { 0 => r.next() as i64 as i128, 1 => r.next() as i128, 2 => 0, _ => r.below(2000) as i128 - 1000 }),
        2 => Oj::Float(match r.below(5) { 0 => f64::from_bits(r.next() & 0x7fdf_ffff_ffff_ffff), 1 => r.below(100000) as f64 / 100.0, 2 => 0.1 + 0.2, 3 => -0.0, _ => r.below(1000) as f64 }),
        3 => Oj::Bool(r.chance(0.5)),
        4 => Oj::Null,
        5 | 6 => Oj::Arr((0..r.below(7)).map(|_| gen_json(r, depth - 1)).collect()),
        7 | 8 => {
            // one operator with its arguments
            let n = r.below(6);
            let a = (0..n).map(|_| gen_json(r, depth - 1)).collect();
            Oj::Obj(vec![(r.pick(&OPS).to_string(), if r.chance(0.8) { Oj::Arr(a) } else { gen_json(r, depth - 1) })])
        }
        _ => {
            let mut v: Vec<(String, Oj)> = vec![];
            for _ in 0..r.below(7) {
                let k = match r.below(12) {
                    0 => r.pick(&OPS).to_string(),
                    1 => ["", " ", "key with blanks", "ключ", "a.b", "é€", "@Ccy", "$value"][r.below(8)].to_string(),
                    2 if r.chance(0.15) => gen_str(r),
                    _ => (0..r.range(1, 12)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
                };
                if !v.iter().any(|x| x.0 == k) {
                    v.push((k, gen_json(r, depth - 1)));
                }
            }
            Oj::Obj(v)
        }
    }
}
/// the document with every key that JSON has to escape replaced; and what kinds there were
fn plain_keys(v: &Oj, kinds: &mut HashSet<&'static str>) -> Oj {
    match v {
        Oj::Arr(a) => Oj::Arr(a.iter().map(|x| plain_keys(x, kinds)).collect()),
        Oj::Obj(a) => Oj::Obj(a.iter().enumerate().map(|(i, (k, x))| {
            let mut bad = false;
            for ch in k.chars() {
                if let Some(w) = match ch { '"' => Some("quote"), '\\' => Some("backslash"), c if (c as u32) < 0x20 => Some("control character"), _ => None } {
                    kinds.insert(w);
                    bad = true;
                }
            }
            (if bad { format!("plain{i}") } else { k.clone() }, plain_keys(x, kinds))
        }).collect()),
        v => v.clone(),
    }
}
/// None: the same content; otherwise what went wrong
fn format_once(sc: &Path, opts: &[String], v: &Oj, in_place: bool, r: &mut Rng) -> Option<Value> {
    let script = repo().join("test_scenarios/json_semi_beautifier.py");
    let mut t = String::new();
    write(v, r, &mut t);
    let f = sc.join("a.json");
    std::fs::write(&f, &t).unwrap();
    let mut args: Vec<String> = vec!["a.json".into()];
    args.extend(opts.iter().cloned());
    if in_place {
        args.push("-i".into());
    }
    let (rc, out, err) = python(&script, &args, sc);
    let after = std::fs::read_to_string(&f).unwrap_or_default();
    let text = if in_place { after.clone() } else { out.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default() };
    if !in_place && after != t {
        return Some(json!({"kind": "file changed without -i", "input": clip(&t, 600)}));
    }
    match serde_json::from_str::<Oj>(&text) {
        Ok(w) if w == *v => {}
        Ok(_) => return Some(json!({"kind": "content", "input": clip(&t, 900), "output": clip(&text, 900)})),
        Err(e) => return Some(json!({"kind": "not JSON", "error": e.to_string(), "exit": rc, "stderr": clip(&err, 300), "input": clip(&t, 900), "output": clip(&text, 900)})),
    }
    if in_place {
        // the formatted file is already in its form
        python(&script, &args, sc);
        let again = std::fs::read_to_string(&f).unwrap_or_default();
        if again != after {
            return Some(json!({"kind": "second run changes the file", "first": clip(&after, 600), "second": clip(&again, 600)}));
        }
    }
    None
}
pub fn c35(run: &Run) {
    run.rule("the formatted text parses to the same values in the same order (an independent reader that keeps key order), a second run changes nothing, without -i no file changes, and an unreadable file is reported and left as it was while the others are done");
    run.rounds(|_| {
        run.par("documents", 260, |c| {
            let sc = Scratch::new(c);
            let d = c.rng.range(1, 7);
            let v = gen_json(&mut c.rng, d);
            let mut opts: Vec<String> = vec![];
            for (n, hi) in [("--max-inline-length", 200), ("--max-inline-items", 12), ("--indent", 9)] {
                if c.rng.chance(0.4) {
                    opts.extend([n.to_string(), c.rng.below(hi).to_string()]);
                }
            }
            let inp = c.rng.chance(0.6);
            c.eval(format!("{v:?}{opts:?}").as_bytes());
            if let Some(x) = format_once(&sc.0, &opts, &v, inp, &mut c.rng) {
                let mut kinds = HashSet::new();
                let p = plain_keys(&v, &mut kinds);
                let only_keys = !kinds.is_empty() && format_once(&sc.0, &opts, &p, inp, &mut c.rng).is_none();
                if only_keys {
                    let mut k: Vec<_> = kinds.into_iter().collect();
                    k.sort();
                    return c.fail("C35|key that JSON must escape", json!({"options": opts, "keys_with": k, "observed": x}));
                }
                return c.fail(&format!("C35|{}", x["kind"].as_str().unwrap_or("")), json!({"options": opts, "in_place": inp, "observed": x}));
            }
            c.count(if inp { "in_place" } else { "printed" }, 1);
            c.saw("option_sets", format!("{opts:?}").as_bytes());
            c.sample(|| json!({"options": opts, "in_place": inp}));
        });
        run.par("several files", 30, |c| {
            let sc = Scratch::new(c);
            let mut vs: Vec<(String, Option<Oj>, String)> = vec![];
            for i in 0..c.rng.range(2, 5) {
                let v = gen_json(&mut c.rng, 3);
                let mut k = HashSet::new();
                let v = plain_keys(&v, &mut k);
                let mut t = String::new();
                write(&v, &mut c.rng, &mut t);
                let bad = c.rng.chance(0.4);
                if bad {
                    t = match c.rng.below(4) { 0 => t + " x", 1 => String::new(), 2 => format!("[{t}"), _ => format!("{{\"a\": {t},}}") };
                }
                std::fs::write(sc.0.join(format!("f{i}.json")), &t).unwrap();
                vs.push((format!("f{i}.json"), (!bad).then_some(v), t));
            }
            let mut args: Vec<String> = vs.iter().map(|x| x.0.clone()).collect();
            if c.rng.chance(0.3) {
                args.insert(c.rng.below(args.len()), "missing.json".into());
            }
            args.push("--in-place".into());
            let (_, _, err) = python(&repo().join("test_scenarios/json_semi_beautifier.py"), &args, &sc.0);
            for (n, v, t) in &vs {
                c.eval(format!("{n}{t}").as_bytes());
                let after = std::fs::read_to_string(sc.0.join(n)).unwrap_or_default();
                match v {
                    Some(v) => {
                        if serde_json::from_str::<Oj>(&after).ok().as_ref() != Some(v) {
                            c.fail("C35|several files|content", json!({"file": n, "input": clip(t, 600), "output": clip(&after, 600), "stderr": clip(&err, 300)}));
                        }
                    }
                    None => {
                        if after != *t || !err.contains(n.as_str()) {
                            c.fail("C35|several files|unreadable file", json!({"file": n, "changed": after != *t, "stderr": clip(&err, 300), "input": clip(t, 300)}));
                        }
                        c.count("unreadable", 1);
                    }
                }
            }
            if sc.0.join("missing.json").exists() {
                c.fail("C35|several files|file made up", json!({}));
            }
        });
    });
    // the committed scenarios
    let scen: Vec<(String, Vec<u8>)> = tree(&repo().join("test_scenarios")).into_iter().filter(|x| x.0.ends_with(".json")).collect();
    run.par("committed scenarios", if run.thorough() { scen.len() as u64 } else { 64.min(scen.len() as u64) }, |c| {
        let i = if c.run.thorough() { c.idx as usize } else { c.rng.below(scen.len()) };
        let (n, b) = &scen[i];
        let Ok(v) = serde_json::from_slice::<Oj>(b) else { return };
        let sc = Scratch::new(c);
        c.eval(n.as_bytes());
        c.count("scenario_files", 1);
        if let Some(x) = format_once(&sc.0, &[], &v, true, &mut c.rng) {
            c.fail(&format!("C35|scenario|{}", x["kind"].as_str().unwrap_or("")), json!({"file": n, "observed": x}));
        }
    });
}
