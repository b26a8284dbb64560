//! C10..C14: constraint validation
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::rng::Rng;
use crate::schema::*;
use mx_message::error::ValidationError;
use mx_message::mx_envelope::MxMessage;
use mx_message::parse_result::*;
use mx_message::validation::{Validate, helpers};
use serde_json::json;

/// A value that breaks at least one of the field's constraints (and says which kind was aimed at)
pub fn violating(s: &Schema, f: &Field, r: &mut Rng, dict: &crate::dict::Dict) -> Option<(String, &'static str)> {
    let (lo, hi) = f.len.unwrap_or((None, None));
    for _ in 0..60 {
        let uni = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&['A', 'b', '7', 'é', '中', '\u{1F600}'])).collect() };
        let mut base = String::new();
        if let Some(p) = f.pattern {
            let t = r.range(1, hi.unwrap_or(20).min(20));
            sample(&s.patterns[p].hir, r, t, &mut base);
        }
        let (v, k) = match r.below(12) {
            0 if lo.is_some_and(|l| l > 0) => (String::new(), "empty"),
            1 if lo.is_some_and(|l| l > 1) => ("A".repeat(lo.unwrap() - 1), "one too short"),
            2 if hi.is_some() => ("A".repeat(hi.unwrap() + 1), "one too long"),
            3 if hi.is_some() => (uni(r, hi.unwrap() + 1), "one too long, multi-byte"),
            4 if hi.is_some() => ("7".repeat(hi.unwrap() * 2 + 3), "much too long"),
            5 if hi.is_some() && f.pattern.is_some() => {
                // conforming to the pattern, too long
                let mut o = String::new();
                sample(&s.patterns[f.pattern.unwrap()].hir, r, hi.unwrap() + 1 + r.clone().below(5), &mut o);
                (o, "pattern fine, too long")
            }
            6 if f.pattern.is_some() => (format!("{base}\u{1F600}"), "foreign character at the end"),
            7 if f.pattern.is_some() => (format!("#{base}"), "foreign character at the start"),
            8 if f.pattern.is_some() => (format!("{base}\n{base}"), "line break inside"),
            9 if f.pattern.is_some() => (base.to_lowercase(), "case"),
            10 if f.pattern.is_some() => {
                let mut c: Vec<char> = base.chars().collect();
                if c.is_empty() {
                    continue;
                }
                let i = r.below(c.len());
                c[i] = *r.pick(&['_', '§', '\u{0}', '\t', 'é', '*', '0', 'a', 'Z', ' ']);
                (c.into_iter().collect(), "one character changed")
            }
            11 => {
                let pool = if r.chance(0.5) { &dict.new_strings } else { &dict.strings };
                if pool.is_empty() {
                    continue;
                }
                (r.pick(pool).clone(), "from the source")
            }
            _ => continue,
        };
        if !conforms(s, f, &v) {
            return Some((v, k));
        }
    }
    None
}
/// characters at and next to the ends of every class of a pattern
fn edges(h: &regex_syntax::hir::Hir, out: &mut Vec<char>) {
    use regex_syntax::hir::{Class, HirKind};
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => {
            for g in c.ranges() {
                let (a, b) = (g.start() as u32, g.end() as u32);
                out.extend([a.saturating_sub(1), a, b, b + 1].into_iter().filter_map(char::from_u32).filter(|x| (*x as u32) < 0x3000));
            }
        }
        HirKind::Repetition(r) => edges(&r.sub, out),
        HirKind::Capture(c) => edges(&c.sub, out),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|x| edges(x, out)),
        HirKind::Literal(l) => out.extend(String::from_utf8_lossy(&l.0).chars()),
        _ => {}
    }
}
/// Texts of a pattern with one deviation at one place: a character of a class replaced by one at or beyond its
/// edges, a repetition with one item too few, the fewest, the most, one too many, a part left out or doubled
fn deviations(h: &regex_syntax::hir::Hir) -> Vec<String> {
    use regex_syntax::hir::{Class, Hir, HirKind};
    fn count(h: &Hir) -> usize {
        1 + match h.kind() {
            HirKind::Repetition(r) => count(&r.sub),
            HirKind::Capture(c) => count(&c.sub),
            HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(count).sum(),
            _ => 0,
        }
    }
    /// `at` numbers the nodes in preorder; the deviation `d` takes place at node `want` (in its last instance)
    fn gen_(h: &Hir, at: usize, want: usize, d: usize, long: bool, alpha: &[char], out: &mut String) {
        let here = at == want;
        match h.kind() {
            HirKind::Empty | HirKind::Look(_) => {}
            HirKind::Literal(l) => {
                if !(here && d == 0) {
                    out.push_str(std::str::from_utf8(&l.0).unwrap());
                }
                if here && d == 1 {
                    out.push_str(std::str::from_utf8(&l.0).unwrap());
                }
                if here && d >= 2 && d < alpha.len() + 2 {
                    out.pop();
                    out.push(alpha[d - 2]);
                }
            }
            HirKind::Class(c) => {
                let first = match c {
                    Class::Unicode(c) => c.ranges().first().map_or('A', |g| if g.start() < ' ' { 'A' } else { g.start() }),
                    Class::Bytes(_) => 'A',
                };
                out.push(if here && d < alpha.len() { alpha[d] } else { first });
            }
            HirKind::Capture(c) => gen_(&c.sub, at + 1, want, d, long, alpha, out),
            HirKind::Repetition(r) => {
                let (lo, hi) = (r.min as usize, r.max.map_or(r.min as usize + 3, |x| x as usize).min(60));
                let mut n = if long { hi } else { lo };
                if here {
                    n = match d { 0 => lo.saturating_sub(1), 1 => lo, 2 => hi, 3 => hi + 1, 4 => hi + 2, 5 => hi + lo.max(1), 6 => (lo + hi) / 2, _ => n };
                }
                let inside = want > at && want <= at + count(&r.sub);
                if inside && n == 0 {
                    n = 1;
                }
                for i in 0..n {
                    gen_(&r.sub, at + 1, if inside && i + 1 < n && d % 3 != 0 || inside && i > 0 && d % 3 == 0 { usize::MAX } else { want }, d, long, alpha, out);
                }
            }
            HirKind::Concat(v) => {
                let mut k = at + 1;
                for (i, x) in v.iter().enumerate() {
                    if !(here && d == 2 * i) {
                        gen_(x, k, want, d, long, alpha, out);
                    }
                    if here && d == 2 * i + 1 {
                        gen_(x, k, want, d, long, alpha, out);
                    }
                    k += count(x);
                }
            }
            HirKind::Alternation(v) => {
                let mut k = at + 1;
                for (i, x) in v.iter().enumerate() {
                    let inside = want >= k && want < k + count(x);
                    if inside || here && d == i || !(here && d < v.len()) && !(want > at && want < at + count(h)) && i == if long { v.len() - 1 } else { 0 } {
                        gen_(x, k, want, d, long, alpha, out);
                    }
                    k += count(x);
                }
            }
        }
    }
    let mut alpha = vec!['a', 'x', 'Z', '0', '9', ' ', '.', '-', '+', '/', 'é', '\u{0661}', '\u{212A}', '\n', '\t'];
    edges(h, &mut alpha);
    alpha.sort();
    alpha.dedup();
    let mut out = std::collections::BTreeSet::new();
    for long in [false, true] {
        for k in 0..count(h) {
            for d in 0..alpha.len() + 2 {
                let mut o = String::new();
                gen_(h, 0, k, d, long, &alpha, &mut o);
                out.insert(o);
            }
        }
        let mut base = String::new();
        gen_(h, 0, usize::MAX, 0, long, &alpha, &mut base);
        for a in &alpha {
            out.insert(format!("{base}{a}"));
            out.insert(format!("{a}{base}"));
        }
        for (i, a) in base.char_indices() {
            out.insert(format!("{}{}", &base[..i], &base[i + a.len_utf8()..]));
            out.insert(format!("{}{a}{}", &base[..i], &base[i..]));
            out.insert(base[..i].to_string());
            out.insert(base[i..].to_string());
            out.insert(format!("{} {}", &base[..i], &base[i..]));
        }
        for x in [base.to_lowercase(), base.to_uppercase(), format!("{base}{base}"), format!("{base}\n{base}"), format!("{base}|{base}"), format!("\n{base}"), format!(" {base} "), format!("\u{a0}{base}\u{3000}")] {
            out.insert(x);
        }
    }
    out.into_iter().collect()
}
/// every value near the edges of what a field allows
pub fn dense(s: &Schema, f: &Field, dict: &crate::dict::Dict) -> Vec<String> {
    let mut v = vec![];
    if let Some(p) = f.pattern {
        v.extend(deviations(&s.patterns[p].hir));
    }
    if let Some((lo, hi)) = f.len {
        for e in [lo, hi].into_iter().flatten() {
            for n in [0, e / 2, e.saturating_sub(2), e.saturating_sub(1), e, e + 1, e + 2, e * 2] {
                if n > 5000 {
                    continue;
                }
                for a in ["A", "7", "é", "😀"] {
                    v.push(a.repeat(n));
                }
                v.push(format!(" {}", "A".repeat(n.saturating_sub(1))));
                v.push(format!("{}\n", "é".repeat(n.saturating_sub(1))));
                v.push("a b".chars().cycle().take(n).collect());
            }
        }
    }
    // patterns and words the source has and the pinned commit had not
    for w in &dict.new_strings {
        v.push(w.clone());
        if w.contains(['[', '{', '\\', '(', '+', '*']) {
            if let Ok(h) = regex_syntax::parse(w) {
                v.extend(deviations(&h).into_iter().filter(|x| x.len() < 5000));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// A value near the edge of what the field allows, on either side
pub fn probe(s: &Schema, f: &Field, r: &mut Rng, dict: &crate::dict::Dict) -> String {
    let (lo, hi) = f.len.unwrap_or((None, None));
    if r.chance(0.25) {
        let want = match r.below(3) { 0 => lo, 1 => hi, _ => None };
        return valid_text(s, f, r, want);
    }
    if f.pattern.is_none() || r.chance(0.25) {
        // around the bounds, in characters and in bytes
        let ends: Vec<usize> = [lo, hi].into_iter().flatten().collect();
        let e = if ends.is_empty() { 5 } else { *r.pick(&ends) };
        let n = match r.below(6) { 0 => e.saturating_sub(1), 1 | 2 => e, 3 | 4 => e + 1, _ => e * 2 };
        let alpha: &[char] = match r.below(4) { 0 => &['é'], 1 => &['A', 'b', '7', ' ', 'é', '中', '\u{1F600}'], 2 => &['0', '1', '9'], _ => &['A', 'z', '5'] };
        return (0..n).map(|_| *r.pick(alpha)).collect();
    }
    if r.chance(0.05) {
        let pool = if r.chance(0.5) { &dict.new_strings } else { &dict.strings };
        if !pool.is_empty() {
            return r.pick(pool).clone();
        }
    }
    let h = &s.patterns[f.pattern.unwrap()].hir;
    let mut b = String::new();
    let n = r.range(1, hi.unwrap_or(24).min(40));
    sample(h, r, n, &mut b);
    let mut c: Vec<char> = b.chars().collect();
    let mut alpha = vec!['A', 'Z', 'a', 'z', 'x', '0', '9', ' ', '.', '-', '_', '#', 'é', '\n', '\t', '\u{a0}', '\u{0661}', '\u{212A}', 'ſ'];
    if r.chance(0.6) {
        edges(h, &mut alpha);
    }
    for _ in 0..1 + r.below(2) {
        let k = r.below(c.len() + 1);
        let x = *r.pick(&alpha);
        match r.below(10) {
            0 | 1 => c.push(x),
            2 => c.insert(0, x),
            3 => c.insert(k, x),
            4 if k < c.len() => {
                c.remove(k);
            }
            5 if k < c.len() => c.insert(k, c[k]),
            6 if k < c.len() => c[k] = if c[k].is_ascii_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() },
            7 if r.chance(0.3) => {
                let d = c.clone();
                if r.chance(0.5) {
                    c.push(*r.pick(&['\n', ' ', '|']));
                }
                c.extend(d);
            }
            _ if k < c.len() => c[k] = x,
            _ => {}
        }
    }
    c.into_iter().collect()
}
pub fn constrained(f: &Field) -> bool {
    f.ty == Ty::Prim(Prim::Str) && (f.len.is_some() || f.pattern.is_some())
}
pub fn triple(e: &ValidationError) -> Expect {
    (e.code, e.path.clone().unwrap_or_default(), e.field.clone().unwrap_or_default())
}
pub fn validate_part(m: &MxMessage, hdr: bool, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector) {
    if hdr { m.app_hdr.validate(path, cfg, c) } else { validate_doc(&m.document, path, cfg, c) }
}
fn errors_of(m: &MxMessage, hdr: bool, path: &str, cfg: &ParserConfig) -> Vec<ValidationError> {
    let mut c = ErrorCollector::new();
    validate_part(m, hdr, path, cfg, &mut c);
    c.errors()
}
pub fn configs() -> Vec<ParserConfig> {
    let mut v = vec![];
    for i in 0..8 {
        v.push(ParserConfig { fail_fast: i & 1 != 0, validate_optional_fields: i & 2 != 0, collect_all_errors: i & 4 != 0 });
    }
    v
}
/// message with `n` extra violations besides the one at the site
/// message type (none: the header), path of a constrained text, and the depth of a list on that path to fill with many entries
type Site = (Option<usize>, Vec<usize>, Option<usize>);
fn broken(c: &mut Case, sites: &[Site], extra: f64) -> Option<(&'static MT, &'static Module, bool, String, Msg, String)> {
    let (t, p, long) = &sites[c.idx as usize % sites.len()];
    let s = c.run.s;
    let mt = &MTS[t.unwrap_or_else(|| c.rng.below(MTS.len()))];
    let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.05, 0.2]), budget: 120, forced_rep: *c.rng.pick(&[1, 1, 2, 3]), text: if c.rng.chance(0.3) { Text::Boundary } else { Text::Valid }, ..Cfg::default() };
    let none: Vec<usize> = vec![];
    let (dp, hp) = if t.is_some() { (p, &none) } else { (&none, p) };
    let mut g = message(s, mt, dp, hp, &mut c.rng, &cfg, Some(c.run.dict));
    let hdr = t.is_none();
    let m = if hdr { hdr_module(s) } else { s.doc(mt.module) };
    let f = m.field_at(p);
    let dict = c.run.dict;
    let (bad, kind) = violating(s, f, &mut c.rng, dict)?;
    let tree = if hdr { &mut g.hdr } else { &mut g.doc };
    tree.at_mut(p).unwrap().body = Body::Str(bad);
    // the breaking entry several times, alone or among others
    let lists: Vec<usize> = (1..=p.len()).filter(|k| matches!(m.field_at(&p[..*k]).card, Card::Vec | Card::OptVec)).collect();
    if !lists.is_empty() && (long.is_some() || c.rng.chance(0.4)) {
        let at = &p[..long.unwrap_or(*c.rng.pick(&lists))];
        let bad = tree.at(at).unwrap().clone();
        let n = if long.is_some() || c.rng.chance(0.1) {
            let extra = dict.sizes(120);
            if !extra.is_empty() && c.rng.chance(0.6) { *c.rng.pick(&extra) } else { *c.rng.pick(&[9, 10, 11, 12, 16, 17, 20, 33, 51, 65, 101]) }
        } else {
            c.rng.range(2, 6)
        };
        let all = c.rng.chance(0.5);
        let others = message(s, mt, if hdr { &none } else { at }, if hdr { at } else { &none }, &mut c.rng, &Cfg { p_opt: 0.1, budget: 40, ..Cfg::default() }, None);
        let good = (if hdr { &others.hdr } else { &others.doc }).at(at).unwrap().clone();
        let slot = tree.slot_mut(at).unwrap();
        slot.occ = (0..n).map(|k| if all || k + 1 == n || c.rng.chance(0.5) { bad.clone() } else { good.clone() }).collect();
        c.count("repeated_breaking_entries", n as u64);
    }
    if c.rng.chance(extra) {
        let mut r = c.rng.clone();
        let prob = *r.pick(&[0.1, 0.3, 1.0]);
        let near = r.chance(0.6);
        tree.walk_mut(m, &mut |f, n| {
            if constrained(f) && r.chance(prob) {
                if let (false, Some((v, _))) = (near, violating(s, f, &mut r, dict)) {
                    n.body = Body::Str(v);
                } else if near {
                    n.body = Body::Str(probe(s, f, &mut r, dict));
                }
            }
        });
    }
    let name = format!("{}:{}", if hdr { "AppHdr" } else { mt.short }, m.names(p));
    c.saw("kinds_of_violation", kind.as_bytes());
    Some((mt, m, hdr, name, g, kind.to_string()))
}
fn all_sites(run: &Run, sp: &Space) -> Vec<Site> {
    let h = hdr_module(run.s);
    let mut v: Vec<Site> = sp.hdr_paths.iter().filter(|p| constrained(h.field_at(p))).map(|p| (None, p.clone(), None)).collect();
    v.extend(sp.paths.iter().filter(|(t, p)| constrained(run.s.doc(MTS[*t].module).field_at(p))).map(|(t, p)| (Some(*t), p.clone(), None)));
    run.counter("constrained_text_paths", v.len() as u64);
    v
}
/// for every list of every message type one constrained text below it, another in every round
fn list_sites(run: &Run, all: &[Site], round: u64) -> Vec<Site> {
    let h = hdr_module(run.s);
    let mut m: std::collections::BTreeMap<(Option<usize>, Vec<usize>), Vec<usize>> = Default::default();
    for (i, (t, p, _)) in all.iter().enumerate() {
        let md = t.map_or(h, |t| run.s.doc(MTS[t].module));
        for k in 1..=p.len() {
            if matches!(md.field_at(&p[..k]).card, Card::Vec | Card::OptVec) {
                m.entry((*t, p[..k].to_vec())).or_default().push(i);
            }
        }
    }
    let mut r = Rng::for_case(run.seed, "lists", round);
    m.into_iter().map(|((t, at), below)| (t, all[*r.pick(&below)].1.clone(), Some(at.len()))).collect()
}
fn build(c: &mut Case, prop: &str, mt: &MT, g: &Msg, name: &str) -> Option<MxMessage> {
    let j = msg_json(c.run.s, mt, g).to_string();
    match MxMessage::from_json(&j) {
        Ok(m) => Some(m),
        Err(e) => {
            c.fail(&format!("{prop}|build|{name}"), json!({"error": e.to_string(), "json": clip(&j, 4000)}));
            None
        }
    }
}
const BASES: &[&str] = &["", "", "Document", "a.b", "x"];

pub fn c10(run: &Run) {
    run.rule("case = a message in which one constrained text (every length- or pattern-constrained path of every document type and of the header in turn), and sometimes many more, breaks its constraint; the reported multiset of (code, path, field) must equal the one computed from the reference constraints; non-trivial = distinct (site, kind of violation, value)");
    let sp = Space::new(run.s);
    let st = all_sites(run, &sp);
    run.rounds(|round| {
        let ls = list_sites(run, &st, round);
        run.counter("lists_with_constrained_text", ls.len() as u64);
        let go = |c: &mut Case, st: &[Site]| {
            let Some((mt, m, hdr, name, g, kind)) = broken(c, st, 0.25) else { return };
            let Some(msg) = build(c, "C10", mt, &g, &name) else { return };
            let base = *c.rng.pick(BASES);
            let mut want = vec![];
            expected_errors(c.run.s, m, if hdr { &g.hdr } else { &g.doc }, base, true, &mut want);
            let cfg = if c.rng.chance(0.5) { ParserConfig::default() } else { ParserConfig { collect_all_errors: false, ..ParserConfig::default() } };
            let got_raw = errors_of(&msg, hdr, base, &cfg);
            let mut got: Vec<Expect> = got_raw.iter().map(triple).collect();
            got.sort();
            want.sort();
            c.eval(format!("{name}|{kind}|{want:?}").as_bytes());
            c.saw("sites_violated", name.as_bytes());
            c.count("violations_reported", got.len() as u64);
            if got != want {
                let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
                let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
                c.fail(&format!("C10|{name}"), json!({"kind": kind, "missing": missing, "unexpected": extra, "expected": want.len(), "reported": got.len(), "json": clip(&msg_json(c.run.s, mt, &g).to_string(), 4000)}));
            }
            if let Some(e) = got_raw.iter().find(|e| e.message.is_empty()) {
                c.fail(&format!("C10|message|{name}"), json!({"error": format!("{e:?}")}));
            }
            c.sample(|| json!({"site": name, "kind": kind, "reported": got}));
        };
        run.par("violation", st.len() as u64 * if run.thorough() { 1 } else { 2 }, |c| go(c, &st));
        run.par("long lists", ls.len() as u64, |c| go(c, &ls));
    });
}

pub fn c11(run: &Run) {
    run.rule("case = a conforming message (every element path of every type in turn; ordinary and boundary-length texts, multi-byte text where allowed, padded with white space where the length allows), validated under all 8 configurations; non-trivial = distinct message content. Oracle: no error at all");
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("conforming", sp.paths.len() as u64, |c| {
            let mut cfg = crate::p_codec::vary(c);
            cfg.text = if c.rng.chance(0.5) { Text::Boundary } else { Text::Valid };
            let (mt, mut g, name) = crate::p_codec::fresh(c, &sp, &cfg);
            if c.rng.chance(0.15) {
                // outer white space is set aside by patterns but counts for the length
                let s = c.run.s;
                let m = s.doc(mt.module);
                let mut r = c.rng.clone();
                g.doc.walk_mut(m, &mut |f, n| {
                    if let Body::Str(v) = &n.body {
                        let w = format!("{}{v}{}", r.pick(&["", " ", "\n"]), r.pick(&["", " ", "\t"]));
                        if conforms(s, f, &w) {
                            n.body = Body::Str(w);
                        }
                    }
                });
            }
            let Some(msg) = build(c, "C11", mt, &g, &name) else { return };
            c.eval(format!("{name}|{}", msg_json(c.run.s, mt, &g)).as_bytes());
            for cf in configs() {
                for hdr in [false, true] {
                    let base = *c.rng.pick(BASES);
                    let e = errors_of(&msg, hdr, base, &cf);
                    c.count("validations", 1);
                    if let Some(x) = e.first() {
                        let sig = format!("C11|{}|{}", if hdr { "AppHdr" } else { mt.short }, x.path.clone().unwrap_or_default());
                        return c.fail(&sig, json!({"errors": e.len(), "first": format!("{x:?}"), "config": format!("{cf:?}"), "json": clip(&msg_json(c.run.s, mt, &g).to_string(), 4000)}));
                    }
                }
            }
            c.sample(|| json!({"message": name}));
        })
    });
}

/// errors on texts all of whose ancestors (and themselves) are mandatory
fn mandatory_chain(s: &Schema, m: &Module, n: &Node, path: &str, out: &mut Vec<Expect>) {
    let mut all = vec![];
    let Ty::Ref(t) = n.ty else { return };
    for sl in n.slots() {
        let f = &m.fields(t)[sl.field];
        if !crate::p_reject::is_mandatory(f) {
            continue;
        }
        for o in &sl.occ {
            let one = Node { ty: n.ty, body: Body::Struct(vec![Slot { field: sl.field, occ: vec![o.clone()] }]) };
            if matches!(o.body, Body::Str(_)) {
                expected_errors(s, m, &one, path, true, &mut all);
            } else {
                let p = if path.is_empty() { f.xml.clone() } else { format!("{path}.{}", f.xml) };
                mandatory_chain(s, m, o, &p, out);
            }
        }
    }
    out.extend(all);
}
fn is_submultiset(a: &[Expect], b: &[Expect]) -> bool {
    let mut b = b.to_vec();
    a.iter().all(|x| b.iter().position(|y| y == x).map(|i| b.swap_remove(i)).is_some())
}
pub fn c12(run: &Run) {
    run.rule("case = a message with at least one broken constraint (every constrained path in turn, often with many more), validated under all 8 configurations and with a collector that already holds errors; the same for values of the 62 types, on every constrained element of every group; non-trivial = distinct (site, content)");
    let sp = Space::new(run.s);
    let st = all_sites(run, &sp);
    run.rounds(|round| {
        crate::p_types::c12_types(run);
        let ls = list_sites(run, &st, round);
        run.counter("lists_with_constrained_text", ls.len() as u64);
        let go = |c: &mut Case, st: &[Site]| {
            let Some((mt, m, hdr, name, g, _)) = broken(c, st, 0.5) else { return };
            let Some(msg) = build(c, "C12", mt, &g, &name) else { return };
            let full: Vec<Expect> = errors_of(&msg, hdr, "", &ParserConfig::default()).iter().map(triple).collect();
            c.eval(format!("{name}|{full:?}").as_bytes());
            let mut chain = vec![];
            mandatory_chain(c.run.s, m, if hdr { &g.hdr } else { &g.doc }, "", &mut chain);
            let lenient: Vec<Expect> = errors_of(&msg, hdr, "", &ParserConfig::lenient()).iter().map(triple).collect();
            // with optional content off: everything but what lies inside an optional group
            let mut outside = vec![];
            expected_errors(c.run.s, m, if hdr { &g.hdr } else { &g.doc }, "", false, &mut outside);
            let (mut a, mut b) = (lenient.clone(), outside.clone());
            a.sort();
            b.sort();
            if a != b {
                c.fail(&format!("C12|optional content off|{name}"), json!({"not_reported": b.iter().find(|x| !a.contains(x)), "reported_though_optional": a.iter().find(|x| !b.contains(x)), "expected": b.len(), "got": a.len()}));
            }
            if full.len() > outside.len() {
                c.count("messages_with_errors_in_optional_groups", 1);
            }
            c.count("errors_outside_optional_groups", outside.len() as u64);
            for cf in configs() {
                let mut col = ErrorCollector::new();
                validate_part(&msg, hdr, "", &cf, &mut col);
                let n = col.error_count();
                let has = col.has_errors();
                let got: Vec<Expect> = col.errors().iter().map(triple).collect();
                c.count("validations", 1);
                if has != !got.is_empty() || n != got.len() {
                    c.fail(&format!("C12|count|{name}"), json!({"config": format!("{cf:?}")}));
                }
                let reference = if cf.validate_optional_fields { &full } else { &lenient };
                if cf.fail_fast {
                    let want: Vec<Expect> = reference.first().cloned().into_iter().collect();
                    if got != want {
                        c.fail(&format!("C12|fail_fast|{name}"), json!({"config": format!("{cf:?}"), "expected_first": want, "got": got.len(), "got_first": got.first()}));
                    }
                } else {
                    if got != *reference {
                        c.fail(&format!("C12|same options|{name}"), json!({"config": format!("{cf:?}"), "expected": reference.len(), "got": got.len()}));
                    }
                    if !is_submultiset(&got, &full) {
                        c.fail(&format!("C12|not a subset|{name}"), json!({"config": format!("{cf:?}")}));
                    }
                    if !is_submultiset(&chain, &got) {
                        c.fail(&format!("C12|mandatory content skipped|{name}"), json!({"config": format!("{cf:?}"), "expected": chain.len(), "got": got.len()}));
                    }
                }
            }
            c.count("mandatory_chain_violations", chain.len() as u64);
            // presets
            let (ff, le) = (ParserConfig::fail_fast(), ParserConfig::lenient());
            if !ff.fail_fast || le.fail_fast || le.validate_optional_fields || ParserConfig::default().fail_fast || !ParserConfig::default().validate_optional_fields {
                c.fail("C12|presets", json!({}));
            }
            // a collector that already holds errors keeps them, and fail-fast adds nothing to them
            let mut col = ErrorCollector::new();
            let k = 1 + c.rng.below(3);
            for i in 0..k {
                col.add_error(ValidationError::new(7000 + i as u32, "earlier".into()));
            }
            let cf = if c.rng.chance(0.5) { ParserConfig::default() } else { ParserConfig::fail_fast() };
            validate_part(&msg, hdr, "", &cf, &mut col);
            let got: Vec<Expect> = col.errors().iter().map(triple).collect();
            let mut want: Vec<Expect> = (0..k).map(|i| (7000 + i as u32, String::new(), String::new())).collect();
            if !cf.fail_fast {
                want.extend(full.iter().cloned());
            }
            if got != want {
                c.fail(&format!("C12|earlier errors|{name}"), json!({"fail_fast": cf.fail_fast, "expected": want.len(), "got": got.len()}));
            }
            c.sample(|| json!({"site": name, "errors": full.len(), "lenient": lenient.len(), "mandatory": chain.len()}));
        };
        run.par("config", st.len() as u64, |c| go(c, &st));
        run.par("long lists", ls.len() as u64, |c| go(c, &ls));
    });
}

// C13 -----------------------------------------------------------------
fn rand_text(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => r.below(4), 2 => r.below(300), _ => r.below(40) };
    let mut s: String = (0..n).map(|_| *r.pick(&['A', 'z', '0', '9', ' ', '/', '-', '?', ':', '(', ')', '.', ',', '\'', '+', 'é', '中', '\u{1F600}', 'e', '\u{301}', '\n', '_', '#', 'ß', '\u{a0}'])).collect();
    if r.chance(0.2) {
        s = format!("{}{s}{}", r.pick(&[" ", "\n", "\u{a0}", ""]), r.pick(&[" ", "\t", "\u{2003}", ""]));
    }
    s
}
pub fn c13(run: &Run) {
    run.rule("case = one call of a constraint helper (length, pattern, required, path composition) with random bounds, texts (multi-byte, padded, empty, long, near the bounds) and patterns (every pattern of the message set with members and near-members, random patterns, invalid patterns), under random options and with or without earlier errors; oracle: the documented meaning, evaluated independently; non-trivial = distinct arguments");
    let s = run.s;
    let n = if run.thorough() { 60_000 } else { 20_000 };
    run.rounds(|_| {
        run.par("helper", n, |c| {
            let r = &mut c.rng;
            let cfg = configs()[r.below(8)].clone();
            let mut col = ErrorCollector::new();
            let prior = r.chance(0.2);
            if prior {
                col.add_error(ValidationError::new(1, "earlier".into()));
            }
            let skip = prior && cfg.fail_fast;
            let (field, path) = (format!("F{}", r.below(100)), format!("P.{}", r.below(100)));
            let mut want: Vec<Expect> = if prior { vec![(1, String::new(), String::new())] } else { vec![] };
            let mut critical: Option<bool> = None;
            let (ret, want_ret, desc): (bool, bool, String) = match r.below(8) {
                0..=2 => {
                    let sizes = c.run.dict.sizes(600);
                    let v = if !sizes.is_empty() && r.chance(0.2) { r.pick(&["a", "é"]).repeat(*r.pick(&sizes)) } else { rand_text(r) };
                    let k = v.chars().count();
                    let near = |r: &mut Rng| if r.chance(0.6) { (k + r.below(3)).saturating_sub(1) } else { r.below(80) };
                    let min = r.chance(0.7).then(|| near(r));
                    let max = r.chance(0.7).then(|| near(r));
                    if !skip {
                        if min.is_some_and(|m| k < m) {
                            want.push((1001, path.clone(), field.clone()));
                        }
                        if max.is_some_and(|m| k > m) && !(cfg.fail_fast && want.len() > prior as usize) {
                            want.push((1002, path.clone(), field.clone()));
                        }
                    }
                    let w = !skip && want.len() == prior as usize;
                    (helpers::validate_length(&v, &field, min, max, &path, &cfg, &mut col), w, format!("length {min:?} {max:?} {v:?}"))
                }
                3..=5 => {
                    let (pat, v) = match r.below(5) {
                        0 => (r.pick(&["a|b", "[0-9]{2}", "a+", "x*", "(ab)+|c", "^a$", ".", "[A-Z]{3,3}|0", "a|bc|d"]).to_string(), r.pick(&["a", "b", "ab", "xb", "12", "123", "", "c", "abab", "abc", "bc", "A", "0", "ABC0", "ABC"]).to_string()),
                        1 => {
                            let p = &s.patterns[r.below(s.patterns.len())];
                            (p.src.clone(), rand_text(r))
                        }
                        _ => {
                            let p = &s.patterns[r.below(s.patterns.len())];
                            let mut o = String::new();
                            let t = r.range(1, 40);
                            sample(&p.hir, r, t, &mut o);
                            let o = match r.below(7) {
                                0 => format!("{o}#"),
                                1 => format!("_{o}"),
                                2 => format!(" {o}\n"),
                                3 => format!("{o}\n{o}"),
                                4 => o.to_lowercase(),
                                _ => o,
                            };
                            (p.src.clone(), o)
                        }
                    };
                    if r.chance(0.05) {
                        let bad = *r.pick(&["(", "[", "a{2", "*a", "(?P<"]);
                        let bad_is_error = regex::Regex::new(bad).is_err();
                        if bad_is_error {
                            if !skip {
                                want.push((9999, path.clone(), field.clone()));
                                critical = Some(true);
                            }
                            (helpers::validate_pattern(&v, &field, bad, &path, &cfg, &mut col), false, format!("pattern {bad:?} {v:?}"))
                        } else {
                            (true, true, "skip".into())
                        }
                    } else {
                        let ok = match s.patterns.iter().find(|p| p.src == pat) {
                            Some(p) => p.full.is_match(v.trim()),
                            None => regex::Regex::new(&format!("^(?:{pat})$")).unwrap().is_match(v.trim()),
                        };
                        if !ok && !skip {
                            want.push((1005, path.clone(), field.clone()));
                        }
                        (helpers::validate_pattern(&v, &field, &pat, &path, &cfg, &mut col), ok && !skip, format!("pattern {pat:?} {v:?}"))
                    }
                }
                6 => {
                    let v: Option<u8> = r.chance(0.5).then_some(1);
                    if v.is_none() && !skip {
                        want.push((1003, path.clone(), field.clone()));
                        critical = Some(true);
                    }
                    (helpers::validate_required(&v, &field, &path, &cfg, &mut col), v.is_some() && !skip, format!("required {v:?}"))
                }
                _ => {
                    let (a, b) = (rand_text(r), rand_text(r));
                    let w = if a.is_empty() { b.clone() } else { format!("{a}.{b}") };
                    (helpers::child_path(&a, &b) == w, true, format!("path {a:?} {b:?}"))
                }
            };
            c.eval(format!("{desc}|{cfg:?}|{prior}").as_bytes());
            let crit = col.has_critical_errors();
            let got: Vec<Expect> = col.errors().iter().map(triple).collect();
            if ret != want_ret || got != want || crit != (critical == Some(true) || (cfg.fail_fast && want.len() > prior as usize)) {
                let kind = desc.split(' ').next().unwrap().to_string();
                c.fail(&format!("C13|{kind}"), json!({"call": desc, "config": format!("{cfg:?}"), "earlier_error": prior, "returned": ret, "expected": want_ret, "errors": got, "expected_errors": want, "critical": crit}));
            }
            c.sample(|| json!({"call": desc, "returned": ret, "errors": got}));
        })
    });
}

// C14 -----------------------------------------------------------------
/// an error as validation makes them and as it does not: parts that repeat, contain or contradict each other
fn related_error(c: &mut Case, names: &[String]) -> ValidationError {
    let r = &mut c.rng;
    let word = |r: &mut Rng, d: &crate::dict::Dict| -> String {
        match r.below(12) {
            0 => String::new(),
            1 => (*r.pick(&[".", "..", "A.", ".A", " ", "$value", "@Ccy", "A.B.C", "x[0]", "x[12].y", "/a/b", "None", "Unknown"])).to_string(),
            2 => hostile(r),
            3 if !d.new_strings.is_empty() => r.pick(&d.new_strings).clone(),
            _ => r.pick(names).clone(),
        }
    };
    let code = if r.chance(0.7) { 1000 + r.below(12) as u32 } else { *r.pick(&[0, 1, 9999, u32::MAX, i32::MAX as u32]) };
    let field = word(r, c.run.dict);
    let path = match r.below(8) {
        0 => field.clone(),
        1 => format!("{}.{field}", word(r, c.run.dict)),
        2 => format!("{field}.{}", word(r, c.run.dict)),
        3 => format!("{field}{field}"),
        4 => format!("{field}.{field}"),
        5 => format!("{}.{}.{field}", word(r, c.run.dict), word(r, c.run.dict)),
        6 => format!("{field}[{}]", r.below(12)),
        _ => word(r, c.run.dict),
    };
    let message = match r.below(6) {
        0 => format!("{field} exceeds the maximum length of 35"),
        1 => format!("{path}: {field} is required"),
        2 => format!("[{code}] {field}"),
        3 => path.clone(),
        4 => field.clone(),
        _ => word(r, c.run.dict),
    };
    let (f, p) = (r.chance(0.8), r.chance(0.8));
    let mut e = ValidationError::new(code, message.clone());
    if r.chance(0.5) {
        if p { e = e.with_path(path.clone()) }
        if f { e = e.with_field(field.clone()) }
    } else {
        if f { e = e.with_field(field.clone()) }
        if p { e = e.with_path(path.clone()) }
    }
    let want = ValidationError { code, message, field: f.then_some(field), path: p.then_some(path) };
    c.count("errors_with_related_parts", 1);
    if e != want {
        c.fail("C14|made otherwise", json!({"expected": format!("{want:?}"), "got": format!("{e:?}")}));
    }
    want
}
pub fn c14(run: &Run) {
    run.rule("case = a random history of additions (ordinary and critical) to a collector, observed after every step, or a random parse result observed through every accessor; oracle: a list and a flag; non-trivial = distinct histories");
    let n = if run.thorough() { 20_000 } else { 5_000 };
    let names: Vec<String> = {
        let m = run.s.doc("pacs_008_001_08");
        m.all_paths().iter().step_by(7).flat_map(|p| [m.names(p), m.field_at(p).xml.clone()]).collect()
    };
    run.rounds(|_| {
        run.par("history", n, |c| {
            let mut col = if c.rng.chance(0.5) { ErrorCollector::new() } else { ErrorCollector::default() };
            let mut sizes = vec![0, 1, 2, 5, 10, 40];
            sizes.extend(c.run.dict.sizes(100_000));
            let len = if c.rng.chance(0.01) { *c.rng.pick(&[300, 1100, 5000, 20_000, 70_000]) } else { *c.rng.pick(&sizes) };
            let p_crit = *c.rng.pick(&[0.0, 0.02, 0.15, 0.15, 1.0]);
            let mut model: Vec<ValidationError> = vec![];
            let mut critical = false;
            let mut h = String::new();
            let plain = len > 50 || c.rng.chance(0.3);
            for i in 0..len {
                let mut e = if plain { ValidationError::new(c.rng.below(10_000) as u32, format!("m{i}")) } else { related_error(c, &names) };
                if plain && c.rng.chance(0.5) {
                    e = e.with_field(format!("f{i}"));
                }
                if plain && c.rng.chance(0.5) {
                    e = e.with_path(format!("p{}", c.rng.below(3)));
                }
                if c.rng.chance(0.2) && let Some(last) = model.last() {
                    e = last.clone();
                }
                model.push(e.clone());
                if c.rng.chance(p_crit) {
                    critical = true;
                    h.push('c');
                    col.add_critical_error(e);
                } else {
                    h.push('e');
                    col.add_error(e);
                }
                c.count("steps", 1);
                if !col.has_errors() || col.error_count() != model.len() || col.has_critical_errors() != critical {
                    return c.fail("C14|step", json!({"history": h, "count": col.error_count(), "has": col.has_errors(), "critical": col.has_critical_errors()}));
                }
            }
            if col.has_errors() != (len > 0) || col.has_critical_errors() != critical || col.error_count() != len {
                c.fail("C14|state", json!({"history": h}));
            }
            c.eval(format!("{h}|{model:?}").as_bytes());
            let got = col.errors();
            if got != model {
                c.fail("C14|errors", json!({"history": h, "expected": model.len(), "got": got.len()}));
            }
            // parse results
            let v = c.rng.next();
            let (pr, val, errs): (ParseResult<u64>, Option<u64>, Vec<ValidationError>) = match c.rng.below(3) {
                0 => (ParseResult::Success(v), Some(v), vec![]),
                1 => (ParseResult::PartialSuccess(v, model.clone()), Some(v), model.clone()),
                _ => (ParseResult::Failure(model.clone()), None, model.clone()),
            };
            let kind = match &pr { ParseResult::Success(_) => 0, ParseResult::PartialSuccess(..) => 1, _ => 2 };
            let ok = pr.is_success() == (kind == 0)
                && pr.is_failure() == (kind == 2)
                && pr.value().copied() == val
                && pr.errors().into_iter().cloned().collect::<Vec<_>>() == errs
                && pr.clone() == pr
                && match pr.to_result() {
                    Ok(x) => val == Some(x),
                    Err(e) => val.is_none() && e == errs,
                };
            if !ok {
                c.fail("C14|parse result", json!({"kind": kind, "errors": errs.len()}));
            }
            // conversion keeps every detail
            for e in model.iter().take(40) {
                match mx_message::error::MxError::from(e.clone()) {
                    mx_message::error::MxError::Validation { code, message, field, path } if code == e.code && message == e.message && field == e.field && path == e.path => {}
                    o => c.fail("C14|conversion", json!({"from": format!("{e:?}"), "to": format!("{o:?}")})),
                }
            }
            c.sample(|| json!({"history": h}));
        })
    });
}
