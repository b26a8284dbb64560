//! C08, C09: incomplete or malformed input is refused at every entry point
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::p_codec::pointer;
use crate::plug;
use crate::schema::*;
use mx_message::mx_envelope::MxMessage;
use serde_json::{Value, json};

/// Every way of reading XML: names of those that accept it
pub fn acceptors(mt: &MT, env: Option<&str>, doc: Option<&str>, plugins: bool) -> Vec<String> {
    let mut ok = vec![];
    if let Some(x) = env {
        if MxMessage::from_xml(x).is_ok() {
            ok.push("from_xml".to_string());
        }
        if mx_message::xml::from_mx_xml_envelope_str(x, mt.short).is_ok() {
            ok.push("from_mx_xml_envelope_str".into());
        }
    }
    if let Some(x) = doc {
        if mx_message::xml::xml_to_json_via_document(x, mt.short).is_ok() {
            ok.push("xml_to_json_via_document".into());
        }
        if mx_message::xml::from_mx_xml_envelope_str(x, mt.short).is_ok() {
            ok.push("from_mx_xml_envelope_str(Document)".into());
        }
    }
    if plugins {
        for (k, x) in [("envelope", env), ("Document", doc)] {
            let Some(x) = x else { continue };
            let mut m = plug::message(json!({"in": x}), Value::Null);
            match plug::call("parse_mx", &mut m, &plug::custom("parse_mx", json!({"source": "in", "target": "out"}))) {
                Ok(_) => ok.push(format!("parse_mx({k})")),
                Err(_) => {
                    if m.data().get("out").is_some() {
                        ok.push(format!("parse_mx({k}) wrote a result although it failed"));
                    }
                }
            }
            let mut m = plug::message(json!({"in": x}), Value::Null);
            if plug::call("validate_mx", &mut m, &plug::custom("validate_mx", json!({"source": "in", "target": "out"}))).is_ok() && m.data()["out"]["valid"] != json!(false) {
                ok.push(format!("validate_mx({k})"));
            }
        }
    }
    ok
}
pub fn json_acceptors(j: &Value, plugins: bool) -> Vec<String> {
    let mut ok = vec![];
    if MxMessage::from_json(&j.to_string()).is_ok() {
        ok.push("from_json".to_string());
    }
    if plugins {
        let mut m = plug::message(json!({"in": j}), Value::Null);
        if plug::call("publish_mx", &mut m, &plug::custom("publish_mx", json!({"source": "in", "target": "out"}))).is_ok() {
            ok.push("publish_mx".into());
        } else if m.data().get("out").is_some() {
            ok.push("publish_mx wrote a result although it failed".into());
        }
    }
    ok
}
pub fn is_mandatory(f: &Field) -> bool {
    matches!(f.card, Card::Req | Card::Vec)
}
/// all mandatory element paths: (type index or None for the header, path)
fn sites(s: &Schema, sp: &Space, pick: impl Fn(&Field, &Module) -> bool) -> Vec<(Option<usize>, Vec<usize>)> {
    let h = hdr_module(s);
    let mut v: Vec<(Option<usize>, Vec<usize>)> = sp.hdr_paths.iter().filter(|p| pick(h.field_at(p), h)).map(|p| (None, p.clone())).collect();
    v.extend(sp.paths.iter().filter(|(t, p)| pick(s.doc(MTS[*t].module).field_at(p), s.doc(MTS[*t].module))).map(|(t, p)| (Some(*t), p.clone())));
    v
}
/// a message containing the site; returns (type, module of the site, whether in header, name, message)
fn at_site(c: &mut Case, site: &(Option<usize>, Vec<usize>), reps: bool) -> (&'static MT, &'static Module, bool, String, Msg) {
    let s = c.run.s;
    let (t, p) = site;
    let mt = &MTS[t.unwrap_or_else(|| c.rng.below(MTS.len()))];
    let cfg = Cfg { p_opt: 0.08, budget: 60, forced_rep: if reps { *c.rng.pick(&[1, 1, 2]) } else { 1 }, ..Cfg::default() };
    let none: Vec<usize> = vec![];
    let (dp, hp) = if t.is_some() { (p, &none) } else { (&none, p) };
    let g = message(s, mt, dp, hp, &mut c.rng, &cfg, None);
    let m = if t.is_some() { s.doc(mt.module) } else { hdr_module(s) };
    let name = format!("{}:{}", if t.is_some() { mt.short } else { "AppHdr" }, m.names(p));
    (mt, m, t.is_none(), name, g)
}
fn env_of(c: &Case, mt: &MT, g: &Msg) -> String {
    envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, g, &EnvStyle::plain())
}
fn doc_of(c: &Case, mt: &MT, g: &Msg) -> String {
    document_only(c.run.s.doc(mt.module), mt.tag, &g.doc, &EnvStyle::plain())
}
fn json_ptr(j: &Value, mt: &MT, m: &Module, hdr: bool, p: &[usize]) -> String {
    if hdr { hdr_pointer(j, m, p) } else { pointer(j, mt, m, p) }
}
fn hdr_pointer(v: &Value, m: &Module, p: &[usize]) -> String {
    let mut at = "/AppHdr".to_string();
    let mut t = m.root;
    for i in p {
        let f = &m.fields(t)[*i];
        at.push('/');
        at.push_str(&f.xml);
        if let Some(a) = v.pointer(&at).and_then(|x| x.as_array()) {
            at.push_str(&format!("/{}", a.len().saturating_sub(1)));
        }
        if let Ty::Ref(r) = f.ty {
            t = r;
        }
    }
    at
}
/// the intact message must be accepted everywhere: otherwise a refusal proves nothing
fn intact(c: &mut Case, prop: &str, mt: &MT, g: &Msg, name: &str) -> bool {
    let e = env_of(c, mt, g);
    let j = msg_json(c.run.s, mt, g);
    if MxMessage::from_xml(&e).is_err() || MxMessage::from_json(&j.to_string()).is_err() {
        c.fail(&format!("{prop}|intact message refused|{name}"), json!({"xml": clip(&e, 4000)}));
        return false;
    }
    true
}

/// A message of 5 kB to some MB with one fault in it: a mandatory element removed or an impossible value.
/// Returns (type, intact, broken, fault in the header, name).
pub struct Faults {
    missing: Vec<(Option<usize>, Vec<usize>)>,
    typed: Vec<(Option<usize>, Vec<usize>)>,
}
impl Faults {
    pub fn new(s: &Schema) -> Faults {
        let sp = Space::new(s);
        Faults {
            missing: sites(s, &sp, |f, _| is_mandatory(f)),
            typed: sites(s, &sp, |f, m| match f.ty {
                Ty::Prim(p) => p != Prim::Str,
                Ty::Ref(t) => m.is_enum(t),
            }),
        }
    }
}
pub fn huge_fault(c: &mut Case, fs: &Faults, missing: bool) -> Option<(&'static MT, Msg, Msg, bool, String)> {
    let st = if missing { &fs.missing } else { &fs.typed };
    let site = c.rng.pick(st).clone();
    let (mt, m, hdr, name, mut g) = at_site(c, &site, false);
    let b = *c.rng.pick(&byte_sizes(c.run.dict));
    let what = bulk(c.run.s, mt, &mut g, b, &mut c.rng)?;
    let before = Msg { hdr: g.hdr.clone(), doc: g.doc.clone() };
    let tree = if hdr { &mut g.hdr } else { &mut g.doc };
    if missing {
        let sl = tree.slot_mut(&site.1)?;
        if sl.occ.len() != 1 {
            return None;
        }
        sl.occ.clear();
    } else {
        let bad = match m.field_at(&site.1).ty {
            Ty::Ref(t) => {
                let Kind::Enum(v) = &m.types[t].kind else { unreachable!() };
                bad_code(c, v)
            }
            Ty::Prim(Prim::Num) => c.rng.pick(BAD_NUM).to_string(),
            _ => c.rng.pick(BAD_BOOL).to_string(),
        };
        tree.at_mut(&site.1)?.body = Body::Enum(bad);
    }
    c.count("huge_messages_with_a_fault", 1);
    Some((mt, before, g, hdr, format!("{name}:in {what}")))
}
fn refuse_huge(c: &mut Case, prop: &str, fs: &Faults, missing: bool) {
    let Some((mt, g0, g, hdr, name)) = huge_fault(c, fs, missing) else { return };
    if !intact(c, prop, mt, &g0, &name) {
        return;
    }
    let (e, d, j) = (env_of(c, mt, &g), doc_of(c, mt, &g), msg_json(c.run.s, mt, &g));
    c.eval(e.as_bytes());
    for a in acceptors(mt, Some(&e), (!hdr).then_some(d.as_str()), true).into_iter().chain(json_acceptors(&j, true)) {
        c.fail(&format!("{prop}|{a}|{name}|huge"), json!({"by": a, "bytes": e.len(), "xml": clip(&e, 2000)}));
    }
}

pub fn c08(run: &Run) {
    let fs = Faults::new(run.s);
    run.rule("case = one mandatory element or attribute (of any type's document or of the header) removed from an otherwise conforming message, at a random repetition; fed to every reading entry point (API, typed Document reader, envelope validator, parse_mx, validate_mx, from_json, publish_mx); non-trivial = distinct (site, content); every case first shows that the intact message is accepted");
    let sp = Space::new(run.s);
    let st = sites(run.s, &sp, |f, _| is_mandatory(f));
    run.counter("mandatory_sites", st.len() as u64);
    run.rounds(|_| {
        run.par("missing", st.len() as u64, |c| {
            let site = &st[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, true);
            if !intact(c, "C08", mt, &g, &name) {
                return;
            }
            let tree = if hdr { &mut g.hdr } else { &mut g.doc };
            let p = &site.1;
            tree.slot_mut(p).unwrap().occ.clear();
            let _ = m;
            let plugins = c.idx % 3 == 0 || c.run.thorough();
            let e = env_of(c, mt, &g);
            let d = doc_of(c, mt, &g);
            c.eval(e.as_bytes());
            c.saw("mandatory_sites_removed", name.as_bytes());
            let ok = acceptors(mt, Some(&e), (!hdr).then_some(d.as_str()), plugins);
            for a in &ok {
                c.fail(&format!("C08|{a}|{name}"), json!({"why": "message without a mandatory element accepted", "by": a, "xml": clip(&e, 5000)}));
            }
            let j = msg_json(c.run.s, mt, &g);
            for a in json_acceptors(&j, plugins) {
                c.fail(&format!("C08|{a}|{name}"), json!({"why": "message without a mandatory element accepted", "by": a, "json": clip(&j.to_string(), 5000)}));
            }
            c.count("refusals_observed", if ok.is_empty() { 1 } else { 0 });
            c.sample(|| json!({"removed": name, "xml": clip(&e, 500)}));
        });
        run.par("huge", 60, |c| refuse_huge(c, "C08", &fs, true));
        // whole blocks
        run.par("blocks", (MTS.len() * 4) as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg::default(), None);
            let e = env_of(c, mt, &g);
            let j = msg_json(c.run.s, mt, &g);
            let cut = |x: &str, a: &str, b: &str| -> String { let i = x.find(a).unwrap(); let k = x.rfind(b).unwrap() + b.len(); format!("{}{}", &x[..i], &x[k..]) };
            let (x, j, what) = match c.idx as usize / MTS.len() {
                0 => (cut(&e, "<AppHdr>", "</AppHdr>"), json!({"Document": j["Document"]}), "header"),
                1 => (cut(&e, "<Document>", "</Document>"), json!({"AppHdr": j["AppHdr"]}), "Document"),
                2 => (cut(&e, &format!("<{}>", mt.tag), &format!("</{}>", mt.tag)), json!({"AppHdr": j["AppHdr"], "Document": {}}), "message element"),
                _ => (e.replace(&format!("<{}>", mt.tag), "<Xyz>").replace(&format!("</{}>", mt.tag), "</Xyz>"), json!({"AppHdr": j["AppHdr"], "Document": {"Xyz": j["Document"][mt.tag]}}), "known message element"),
            };
            c.eval(x.as_bytes());
            for a in acceptors(mt, Some(&x), None, true).into_iter().chain(json_acceptors(&j, true)) {
                c.fail(&format!("C08|{a}|{}:no {what}", mt.short), json!({"by": a, "xml": clip(&x, 3000), "json": clip(&j.to_string(), 3000)}));
            }
        });
    });
}

// C09 -----------------------------------------------------------------
fn bad_code(c: &mut Case, vals: &[String]) -> String {
    let r = &mut c.rng;
    let v = r.pick(vals).clone();
    let other = &c.run.s.docs[r.below(c.run.s.docs.len())];
    for _ in 0..30 {
        let w = match r.below(9) {
            0 => v.to_lowercase(),
            1 => format!("{v}X"),
            2 => v[..v.len() - 1].to_string(),
            3 => "XXXX".into(),
            4 => format!("{v}{v}"),
            5 => format!("{}{}", &v[1..], &v[..1]),
            6 => "0".into(),
            7 => format!("{v} {v}"),
            // a code of some other code list
            _ => {
                let es: Vec<&Vec<String>> = other.types.iter().filter_map(|t| if let Kind::Enum(v) = &t.kind { Some(v) } else { None }).collect();
                if es.is_empty() { "ZZZZ".into() } else { let k = r.below(es.len()); es[k][r.below(es[k].len())].clone() }
            }
        };
        if !w.is_empty() && !vals.contains(&w) {
            return w;
        }
    }
    "ZZZZ".into()
}
/// codes that are in no way allowed: every code of every other code list, spellings close to the right ones, names from the source
pub fn foreign_codes(s: &Schema, d: &crate::dict::Dict, vals: &[String]) -> Vec<String> {
    let mut v: std::collections::BTreeSet<String> = s
        .docs
        .iter()
        .chain(&s.hdrs)
        .flat_map(|m| &m.types)
        .filter_map(|t| if let Kind::Enum(v) = &t.kind { Some(v) } else { None })
        .flatten()
        .cloned()
        .collect();
    for x in vals {
        v.insert(x.to_lowercase());
        v.insert(format!("{}{}", &x[..1], x[1..].to_lowercase()));
        v.insert(format!("Code{x}"));
        v.insert(format!("CODE_{x}"));
        v.insert(x[..x.len() - 1].to_string());
        v.insert(format!("{x}X"));
        v.insert(format!("{x}/{x}"));
    }
    v.extend(["", "0", "1", "true", "NORE", "OTHR", "UNKN", "XXXX", "null", "N/A", "-", "*"].map(String::from));
    v.extend(d.new_strings.iter().filter(|x| x.len() <= 40).cloned());
    v.into_iter().filter(|x| !vals.iter().any(|y| y == x.trim())).collect()
}
/// names from the source that cannot be a number
pub fn foreign_numbers(d: &crate::dict::Dict) -> Vec<String> {
    d.new_strings.iter().filter(|x| x.len() <= 40 && x.trim().parse::<f64>().is_err()).cloned().collect()
}
/// names from the source that are in no way a boolean
pub fn foreign_flags(d: &crate::dict::Dict) -> Vec<String> {
    const OK: &[&str] = &["true", "false", "1", "0", "t", "f", "y", "n", "yes", "no"];
    d.new_strings.iter().filter(|x| x.len() <= 40 && !OK.contains(&x.trim().to_lowercase().as_str())).cloned().collect()
}
const BAD_NUM: &[&str] = &["abc", "1,5", "12 EUR", "--1", "1.2.3", "0x10", "EUR", "1 000", "١٢", "12a", "$5", "."];
const BAD_BOOL: &[&str] = &["maybe", "2", "-1", "01", "truee", "falsee", "on", "null", "tru", "T R U E"];

pub fn c09(run: &Run) {
    run.rule("case = one coded, boolean or numeric element (every such path of every type) holding a value outside its type, one code list (every list of every type) against every code of all other lists, near spellings and names from the source, one scalar of the wrong JSON kind, one single-valued element given twice with different values, one syntax error in the XML text, or a text that breaks off after the document or holds a second header, document or message; fed to every reading entry point; non-trivial = distinct (site, bad value)");
    let sp = Space::new(run.s);
    let fs = Faults::new(run.s);
    let st = sites(run.s, &sp, |f, m| match f.ty {
        Ty::Prim(Prim::Str) => false,
        Ty::Prim(_) => true,
        Ty::Ref(t) => m.is_enum(t),
    });
    let single = sites(run.s, &sp, |f, _| matches!(f.card, Card::Req | Card::Opt) && f.xml != "$value" && !f.xml.starts_with('@'));
    let mut lists: std::collections::BTreeMap<(Option<usize>, usize), Vec<Vec<usize>>> = Default::default();
    for (t, p) in &st {
        if let Ty::Ref(e) = t.map_or(hdr_module(run.s), |t| run.s.doc(MTS[t].module)).field_at(p).ty {
            lists.entry((*t, e)).or_default().push(p.clone());
        }
    }
    let lists: Vec<_> = lists.into_iter().map(|((t, e), p)| (t, e, p)).collect();
    run.counter("typed_sites", st.len() as u64);
    run.counter("single_valued_sites", single.len() as u64);
    run.rounds(|_| {
        run.par("value", st.len() as u64, |c| {
            let site = &st[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, false);
            let f = m.field_at(&site.1);
            let k = if c.run.thorough() { 4 } else { 2 };
            if !intact(c, "C09", mt, &g, &name) {
                return;
            }
            let j0 = msg_json(c.run.s, mt, &g);
            let at = json_ptr(&j0, mt, m, hdr, &site.1);
            let mut bads: Vec<String> = (0..k)
                .map(|_| match f.ty {
                    Ty::Ref(t) => {
                        let Kind::Enum(v) = &m.types[t].kind else { unreachable!() };
                        bad_code(c, v)
                    }
                    Ty::Prim(Prim::Num) => c.rng.pick(BAD_NUM).to_string(),
                    _ => c.rng.pick(BAD_BOOL).to_string(),
                })
                .collect();
            // what the source under test mentions
            let news = match f.ty {
                Ty::Ref(_) => vec![],
                Ty::Prim(Prim::Num) => foreign_numbers(c.run.dict),
                _ => foreign_flags(c.run.dict),
            };
            for _ in 0..news.len().min(3) {
                bads.push(c.rng.pick(&news).clone());
            }
            for (i, bad) in bads.into_iter().enumerate() {
                let tree = if hdr { &mut g.hdr } else { &mut g.doc };
                tree.at_mut(&site.1).unwrap().body = Body::Enum(bad.clone());
                let e = env_of(c, mt, &g);
                let d = doc_of(c, mt, &g);
                c.eval(format!("{name}|{bad}").as_bytes());
                c.saw("bad_values", bad.as_bytes());
                let plugins = (c.idx + i as u64) % 4 == 0;
                for a in acceptors(mt, Some(&e), (!hdr).then_some(d.as_str()), plugins) {
                    c.fail(&format!("C09|{a}|{name}|{}", kind_of(f, m)), json!({"value": bad, "by": a, "xml": clip(&e, 3000)}));
                }
                let mut j = j0.clone();
                *j.pointer_mut(&at).unwrap() = Value::String(bad.clone());
                for a in json_acceptors(&j, plugins) {
                    c.fail(&format!("C09|{a}|{name}|{}", kind_of(f, m)), json!({"value": bad, "by": a, "json": clip(&j.to_string(), 3000)}));
                }
            }
            let wrong = match f.ty {
                Ty::Prim(Prim::Num) => [json!(true), json!([1]), json!({"x": 1})],
                Ty::Prim(Prim::Bool) => [json!(1), json!([true]), json!({})],
                _ => [json!(1), json!(true), json!([["ACCP"]])],
            };
            let mut j = j0.clone();
            let w = c.rng.pick(&wrong).clone();
            *j.pointer_mut(&at).unwrap() = w.clone();
            c.eval(format!("{name}|{w}").as_bytes());
            for a in json_acceptors(&j, false) {
                c.fail(&format!("C09|{a}|{name}|kind"), json!({"value": w, "by": a}));
            }
        });
        // every code list against every code of all others
        run.par("codes", lists.len() as u64, |c| {
            let (t, e, paths) = &lists[c.idx as usize];
            let p = c.rng.pick(paths).clone();
            let (mt, m, hdr, name, mut g) = at_site(c, &(*t, p.clone()), false);
            if !intact(c, "C09", mt, &g, &name) {
                return;
            }
            let Kind::Enum(vals) = &m.types[*e].kind else { unreachable!() };
            let mut j = msg_json(c.run.s, mt, &g);
            let at = json_ptr(&j, mt, m, hdr, &p);
            c.saw("code_lists", name.as_bytes());
            for bad in foreign_codes(c.run.s, c.run.dict, vals) {
                c.eval(format!("{name}|{bad}|list").as_bytes());
                *j.pointer_mut(&at).unwrap() = Value::String(bad.clone());
                for a in json_acceptors(&j, false) {
                    c.fail(&format!("C09|{a}|{name}|code list"), json!({"value": bad, "by": a}));
                }
                let tree = if hdr { &mut g.hdr } else { &mut g.doc };
                tree.at_mut(&p).unwrap().body = Body::Enum(bad.clone());
                let (e, d) = if hdr { (Some(env_of(c, mt, &g)), None) } else { (None, Some(doc_of(c, mt, &g))) };
                if let Some(x) = e.filter(|x| MxMessage::from_xml(x).is_ok()) {
                    c.fail(&format!("C09|from_xml|{name}|code list"), json!({"value": bad, "xml": clip(&x, 3000)}));
                }
                if let Some(x) = d.filter(|x| mx_message::xml::xml_to_json_via_document(x, mt.short).is_ok()) {
                    c.fail(&format!("C09|xml_to_json_via_document|{name}|code list"), json!({"value": bad, "xml": clip(&x, 3000)}));
                }
            }
        });
        run.par("twice", single.len() as u64, |c| {
            let site = &single[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, false);
            let other = {
                let cfg = Cfg { p_opt: 0.1, budget: 40, ..Cfg::default() };
                let g2 = if hdr { message(c.run.s, mt, &[], &site.1, &mut c.rng, &cfg, None).hdr } else { message(c.run.s, mt, &site.1, &[], &mut c.rng, &cfg, None).doc };
                g2.at(&site.1).unwrap().clone()
            };
            if !intact(c, "C09", mt, &g, &name) {
                return;
            }
            let _ = m;
            let tree = if hdr { &mut g.hdr } else { &mut g.doc };
            tree.slot_mut(&site.1).unwrap().occ.push(other);
            let e = env_of(c, mt, &g);
            let d = doc_of(c, mt, &g);
            c.eval(e.as_bytes());
            c.saw("doubled_sites", name.as_bytes());
            for a in acceptors(mt, Some(&e), (!hdr).then_some(d.as_str()), c.idx % 8 == 0) {
                c.fail(&format!("C09|{a}|{name}|twice"), json!({"by": a, "xml": clip(&e, 4000)}));
            }
        });
        run.par("huge", 60, |c| refuse_huge(c, "C09", &fs, false));
        // values that are numbers only to a floating-point parser
        run.par("nonfinite", 60, |c| {
            let nums: Vec<_> = st.iter().filter(|(t, p)| t.is_some_and(|t| run.s.doc(MTS[t].module).field_at(p).ty == Ty::Prim(Prim::Num))).collect();
            let site = nums[c.rng.below(nums.len())];
            let (mt, _, _, name, mut g) = at_site(c, site, false);
            let v = *c.rng.pick(&["NaN", "inf", "-inf", "infinity", "nan"]);
            g.doc.at_mut(&site.1).unwrap().body = Body::Enum(v.into());
            let e = env_of(c, mt, &g);
            c.eval(format!("{name}|{v}").as_bytes());
            for a in acceptors(mt, Some(&e), None, true) {
                c.fail(&format!("C09|{a}|not-a-number amounts accepted"), json!({"value": v, "field": name, "xml": clip(&e, 3000)}));
            }
        });
        // a text that breaks off after the document, or goes on: a second header, document, message or envelope
        run.par("more", if run.thorough() { 12000 } else { 3000 }, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.2]), budget: 60, ..Cfg::default() };
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &cfg, None);
            let (e, d) = (env_of(c, mt, &g), doc_of(c, mt, &g));
            if !intact(c, "C09", mt, &g, mt.short) {
                return;
            }
            let mt2 = if c.rng.chance(0.6) { mt } else { &MTS[c.rng.below(MTS.len())] };
            let g2 = if c.rng.chance(0.2) && mt2.short == mt.short { None } else { Some(message(c.run.s, mt2, &[], &[], &mut c.rng, &cfg, None)) };
            let (e2, d2) = g2.as_ref().map_or((e.clone(), d.clone()), |g| (env_of(c, mt2, g), doc_of(c, mt2, g)));
            let cut = |x: &str, a: &str, b: &str| x[x.find(a).unwrap()..x.rfind(b).unwrap() + b.len()].to_string();
            let (hdr, doc) = (cut(&e, "<AppHdr>", "</AppHdr>"), cut(&e, "<Document", "</Document>"));
            let (hdr2, doc2) = (cut(&e2, "<AppHdr>", "</AppHdr>"), cut(&e2, "<Document", "</Document>"));
            let el = |mt: &MT, x: &str| cut(x, &format!("<{}", mt.tag), "</Document>").trim_end_matches("</Document>").trim_end().to_string();
            let (body, body2) = (el(mt, &d), el(mt2, &d2));
            let gap = *c.rng.pick(&["", "", "\n", "  ", "<!-- next -->", "\r\n\t", "<?pi x?>"]);
            let open = &e[..e.find("<AppHdr>").unwrap()];
            let deep = c.rng.chance(0.3);
            let wrap = |x: &str| if deep { format!("<Batch>{x}</Batch>") } else { x.to_string() };
            let (env, docs, kind): (Option<String>, Option<String>, &str) = match c.rng.below(16) {
                0 => (Some(format!("{open}{hdr}{gap}{}{doc}</Envelope>", wrap(&hdr2))), None, "second header after the first"),
                1 => (Some(format!("{open}{hdr}{gap}{doc}{gap}{}</Envelope>", wrap(&hdr2))), None, "second header at the end"),
                2 => (Some(format!("{open}{hdr}{doc}{gap}{}</Envelope>", wrap(&doc2))), None, "second Document"),
                3 => (Some(format!("{open}{hdr}{doc}{gap}{hdr2}{doc2}</Envelope>")), None, "second message in the envelope"),
                4 => (Some(format!("{hdr}{doc}{gap}{hdr2}{doc2}")), None, "second message without an envelope"),
                5 => (Some(format!("{open}{hdr}<Document>{body}{gap}{body2}</Document></Envelope>")), Some(format!("<Document>{body}{gap}{body2}</Document>")), "second message in the Document"),
                6 => (Some(format!("{e}{gap}{}", &e2[e2.find("<Envelope").unwrap_or(0)..])), None, "second envelope"),
                7 => (Some(format!("{e}{gap}{doc2}")), Some(format!("{d}{gap}{doc2}")), "Document after the end"),
                8 => (Some(format!("{open}{hdr}{doc}{gap}")), None, "envelope not closed"),
                9 => (Some(format!("{open}{hdr}{doc}{gap}</Envelop>")), Some(format!("{d}{gap}</Envelope>")), "wrong end tag at the end"),
                10 => (Some(format!("{e}{gap}</Envelope>")), Some(format!("{d}</Document>")), "end tag too many"),
                11 => (Some(format!("{e}<")), Some(format!("{d}{gap}<Docu")), "cut off in a tag"),
                12 => (Some(format!("{}<!-- the rest", e)), Some(format!("{d}<!-- and")), "cut off in a comment"),
                13 => (None, Some(format!("{body}{gap}{body2}")), "second bare message"),
                14 => (Some(format!("{open}{hdr}{doc}{gap}<Sgntr>{}", if deep { "<V>" } else { "" })), None, "cut off after the document"),
                _ => (Some(format!("{open}{hdr}{gap}{doc}<Sgntr><V></Sgntr></V></Envelope>")), None, "ill-nested after the document"),
            };
            c.eval(env.as_deref().or(docs.as_deref()).unwrap().as_bytes());
            c.saw("kinds_of_surplus", format!("{kind}|{}|{}", mt.short, mt2.short == mt.short).as_bytes());
            // a bare message element has no Document to identify it by: the readers that are told its type take it
            for a in acceptors(mt, env.as_deref(), docs.as_deref(), kind != "second bare message") {
                c.fail(&format!("C09|{a}|{kind}"), json!({"by": a, "type": mt.short, "xml": clip(env.as_deref().or(docs.as_deref()).unwrap(), 6000)}));
            }
            // the same in JSON
            let (j, j2) = (msg_json(c.run.s, mt, &g), msg_json(c.run.s, mt2, g2.as_ref().unwrap_or(&g)));
            let (h, h2, b, b2) = (j["AppHdr"].to_string(), j2["AppHdr"].to_string(), j["Document"].to_string(), j2["Document"].to_string());
            let inner = |x: &str| x[1..x.len() - 1].to_string();
            let (t, kind) = match c.rng.below(6) {
                0 => (format!("{{\"AppHdr\":{h},\"AppHdr\":{h2},\"Document\":{b}}}"), "second header"),
                1 => (format!("{{\"AppHdr\":{h},\"Document\":{b},\"Document\":{b2}}}"), "second Document"),
                2 => (format!("{{\"AppHdr\":{h},\"Document\":{{{},{}}}}}", inner(&b), inner(&b2)), "second message in the Document"),
                3 => (format!("{{\"AppHdr\":{h},\"Document\":{b}}}{gap2}{j2}", gap2 = if gap.starts_with('<') { "" } else { gap }), "second message"),
                4 => (format!("{{\"AppHdr\":{h},\"Document\":{b}"), "cut off"),
                _ => (format!("[{j},{j2}]"), "list of messages"),
            };
            c.eval(t.as_bytes());
            if MxMessage::from_json(&t).is_ok() {
                c.fail(&format!("C09|from_json|{kind}"), json!({"json": clip(&t, 6000)}));
            }
        });
        // syntax errors at a random place of a message
        run.par("syntax", if run.thorough() { 12000 } else { 4000 }, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.2, budget: 80, ..Cfg::default() }, None);
            let e = env_of(c, mt, &g);
            let Some((x, kind)) = break_syntax(c, &e) else { return };
            c.eval(x.as_bytes());
            c.saw("kinds_of_syntax_error", kind.as_bytes());
            for a in acceptors(mt, Some(&x), None, c.idx % 8 == 0) {
                c.fail(&format!("C09|{a}|{}|syntax:{kind}", mt.short), json!({"by": a, "xml": clip(&x, 4000)}));
            }
        });
    });
}
fn kind_of(f: &Field, m: &Module) -> &'static str {
    match f.ty {
        Ty::Ref(t) if m.is_enum(t) => "code",
        Ty::Prim(Prim::Num) => "number",
        _ => "boolean",
    }
}
/// one well-formedness error inside the message content (within AppHdr or the message element)
fn break_syntax(c: &mut Case, x: &str) -> Option<(String, String)> {
    let r = &mut c.rng;
    let lo = x.find("<AppHdr>")?;
    let hi = x.rfind("</Document>")?;
    let idx: Vec<usize> = x.match_indices('<').map(|m| m.0).filter(|i| *i > lo && *i < hi).collect();
    let at = *r.pick(&idx);
    let end = at + x[at..].find('>')? + 1;
    let tag = &x[at..end];
    let close = tag.starts_with("</");
    Some(match r.below(6) {
        // truncated
        0 => (x[..at].to_string(), "truncated".into()),
        1 => (x[..end - 1].to_string(), "cut tag".into()),
        2 if close => (format!("{}{}", &x[..at], &x[end..]), "end tag missing".into()),
        3 if close => (format!("{}</Zz>{}", &x[..at], &x[end..]), "end tag mismatched".into()),
        4 if !close && !tag.ends_with("/>") && tag != "<AppHdr>" => (format!("{}{}", &x[..at], &x[end..]), "start tag missing".into()),
        5 if !close && !tag.ends_with("/>") => (format!("{}&nosuch;{}", &x[..end], &x[end..]), "unknown entity".into()),
        _ => return None,
    })
}

// C36 -----------------------------------------------------------------
/// what every reading entry point says about a text it refuses
fn refusals(mt: &MT, env: Option<&str>, doc: Option<&str>, j: Option<&Value>, plugins: bool) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut put = |k: &str, e: Option<String>| v.extend(e.map(|e| (k.to_string(), e)));
    if let Some(x) = env {
        put("from_xml", MxMessage::from_xml(x).err().map(|e| e.to_string()));
        put("from_mx_xml_envelope_str", mx_message::xml::from_mx_xml_envelope_str(x, mt.short).err().map(|e| e.to_string()));
    }
    if let Some(x) = doc {
        put("xml_to_json_via_document", mx_message::xml::xml_to_json_via_document(x, mt.short).err().map(|e| e.to_string()));
    }
    if let Some(j) = j {
        put("from_json", MxMessage::from_json(&j.to_string()).err().map(|e| e.to_string()));
    }
    if plugins {
        for (k, x) in [("envelope", env), ("Document", doc)] {
            let Some(x) = x else { continue };
            let mut m = plug::message(json!({"in": x}), Value::Null);
            put(&format!("parse_mx({k})"), plug::call("parse_mx", &mut m, &plug::custom("parse_mx", json!({"source": "in", "target": "out"}))).err().map(|e| e.to_string()));
            let mut m = plug::message(json!({"in": x}), Value::Null);
            if plug::call("validate_mx", &mut m, &plug::custom("validate_mx", json!({"source": "in", "target": "out"}))).is_ok() && m.data()["out"]["valid"] == json!(false) {
                let e = m.data()["out"]["errors"].to_string();
                put(&format!("validate_mx({k})"), Some(e));
            }
        }
        if let Some(j) = j {
            let mut m = plug::message(json!({"in": j}), Value::Null);
            put("publish_mx", plug::call("publish_mx", &mut m, &plug::custom("publish_mx", json!({"source": "in", "target": "out"}))).err().map(|e| e.to_string()));
        }
    }
    v
}
/// `w` in `text`, not as part of a longer word
fn mentions(text: &str, w: &str) -> bool {
    if w == "$value" {
        return true;
    }
    let word = |c: char| c.is_alphanumeric() || c == '_';
    text.match_indices(w).any(|(i, _)| !text[..i].chars().next_back().is_some_and(word) && !text[i + w.len()..].chars().next().is_some_and(word))
}
pub fn c36(run: &Run) {
    run.rule("case = a conforming message with one fault: a mandatory element or attribute removed, a code outside its list, a non-number or non-boolean, a single-valued element given twice, a message type that is not supported; every text with which an entry point refuses it must name the element or quote the value, and the XML readers' texts also the block (header or message type) it is in; non-trivial = distinct texts fed");
    let sp = Space::new(run.s);
    let fs = Faults::new(run.s);
    let single = sites(run.s, &sp, |f, _| matches!(f.card, Card::Req | Card::Opt) && f.xml != "$value" && !f.xml.starts_with('@'));
    let missing: Vec<_> = fs.missing.iter().filter(|(t, p)| t.map_or(hdr_module(run.s), |t| run.s.doc(MTS[t].module)).field_at(p).xml != "$value").cloned().collect();
    run.counter("mandatory_sites", missing.len() as u64);
    run.rounds(|_| {
        let check = |c: &mut Case, mt: &MT, hdr: bool, what: &str, name: &str, want: &str, r: Vec<(String, String)>| {
            for (by, text) in r {
                c.count("refusals_read", 1);
                c.saw("entry_and_fault", format!("{by}|{what}").as_bytes());
                c.saw("texts_of_refusals", text.as_bytes());
                // of a malformed number the XML reader only says that it is one
                let named = mentions(&text, want) || what == "number" && (by != "from_json" && by != "publish_mx");
                if !named {
                    c.fail(&format!("C36|{by}|{what}"), json!({"name": name, "error": clip(&text, 300), "want": want}));
                }
                let block = if hdr { "AppHdr" } else { mt.short };
                if by != "from_json" && by != "publish_mx" && !mentions(&text, block) {
                    c.fail(&format!("C36|{by}|{what}|block"), json!({"name": name, "error": clip(&text, 300), "want": block}));
                }
                c.sample(|| json!({"fault": what, "at": name, "by": by, "error": clip(&text, 300)}));
            }
        };
        run.par("missing", missing.len() as u64, |c| {
            let site = &missing[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, true);
            let f = m.field_at(&site.1);
            let tree = if hdr { &mut g.hdr } else { &mut g.doc };
            tree.slot_mut(&site.1).unwrap().occ.clear();
            let (e, d, j) = (env_of(c, mt, &g), doc_of(c, mt, &g), msg_json(c.run.s, mt, &g));
            c.eval(e.as_bytes());
            c.saw("sites", name.as_bytes());
            let r = refusals(mt, Some(&e), (!hdr).then_some(d.as_str()), Some(&j), c.idx % 3 == 0);
            check(c, mt, hdr, "missing", &name, f.xml.trim_start_matches('@'), r);
        });
        run.par("value", fs.typed.len() as u64, |c| {
            let site = &fs.typed[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, false);
            let (what, bad) = match m.field_at(&site.1).ty {
                Ty::Ref(t) => {
                    let Kind::Enum(v) = &m.types[t].kind else { unreachable!() };
                    let b = bad_code(c, v);
                    // of any length
                    let n = if c.rng.chance(0.2) { *c.rng.pick(&[30, 120, 300, 1000]) / b.len().max(1) } else { 0 };
                    ("code", format!("{b}{}", "Q9".repeat(n)))
                }
                Ty::Prim(Prim::Num) => ("number", c.rng.pick(BAD_NUM).to_string()),
                _ => ("boolean", c.rng.pick(BAD_BOOL).to_string()),
            };
            let tree = if hdr { &mut g.hdr } else { &mut g.doc };
            tree.at_mut(&site.1).unwrap().body = Body::Enum(bad.clone());
            let (e, d, j) = (env_of(c, mt, &g), doc_of(c, mt, &g), msg_json(c.run.s, mt, &g));
            c.eval(e.as_bytes());
            c.saw("sites", name.as_bytes());
            let r = refusals(mt, Some(&e), (!hdr).then_some(d.as_str()), Some(&j), c.idx % 3 == 0);
            check(c, mt, hdr, what, &name, &bad, r);
        });
        run.par("twice", single.len() as u64, |c| {
            let site = &single[c.idx as usize];
            let (mt, m, hdr, name, mut g) = at_site(c, site, false);
            let f = m.field_at(&site.1);
            let tree = if hdr { &mut g.hdr } else { &mut g.doc };
            let slot = tree.slot_mut(&site.1).unwrap();
            let again = slot.occ[0].clone();
            slot.occ.push(again);
            let (e, d) = (env_of(c, mt, &g), doc_of(c, mt, &g));
            c.eval(e.as_bytes());
            c.saw("sites", name.as_bytes());
            let r = refusals(mt, Some(&e), (!hdr).then_some(d.as_str()), None, c.idx % 8 == 0);
            check(c, mt, hdr, "twice", &name, &f.xml, r);
        });
        run.par("huge", 40, |c| {
            let Some((mt, _, g, hdr, name)) = huge_fault(c, &fs, true) else { return };
            let (e, d, j) = (env_of(c, mt, &g), doc_of(c, mt, &g), msg_json(c.run.s, mt, &g));
            c.eval(e.as_bytes());
            let r = refusals(mt, Some(&e), (!hdr).then_some(d.as_str()), Some(&j), true);
            // type:path:in what
            let last = name.split(':').nth(1).and_then(|p| p.rsplit('.').next()).unwrap_or("").trim_start_matches('@').to_string();
            check(c, mt, hdr, "huge", &name, if last == "$value" { "$value" } else { &last }, r);
        });
        // a message type, a block or a field of the workflow message that is not there
        run.par("absent", 400, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg::default(), None);
            let (e, d, j) = (env_of(c, mt, &g), doc_of(c, mt, &g), msg_json(c.run.s, mt, &g));
            let bad = ["pacs.077", "camt.999.001.01", "abcd.001.001.01", "pain.00", "sese.023"][c.rng.below(5)];
            c.eval(format!("{bad}{e}").as_bytes());
            let mut r = vec![];
            let mut put = |k: &str, w: &str, e: Option<String>| r.push((k.to_string(), w.to_string(), e));
            put("from_xml tag", "Xyz", MxMessage::from_xml(&e.replace(mt.tag, "Xyz")).err().map(|e| e.to_string()));
            put("xml_to_json_via_document", bad, mx_message::xml::xml_to_json_via_document(&d, bad).err().map(|e| e.to_string()));
            let mut j2 = j.clone();
            let doc = j2["Document"].as_object_mut().unwrap();
            let v = doc.remove(mt.tag).unwrap();
            doc.insert("Xyz".into(), v);
            put("from_json", "Xyz", MxMessage::from_json(&j2.to_string()).err().map(|e| e.to_string()));
            let mut j3 = j.clone();
            j3.as_object_mut().unwrap().remove("Document");
            put("from_json", "Document", MxMessage::from_json(&j3.to_string()).err().map(|e| e.to_string()));
            for f in ["parse_mx", "validate_mx", "publish_mx"] {
                let mut m = plug::message(json!({"in": 1}), Value::Null);
                put(f, "nowhere_1", plug::call(f, &mut m, &plug::custom(f, json!({"source": "nowhere_1", "target": "out"}))).err().map(|e| e.to_string()));
            }
            let mut m = plug::message(json!({"in": j2}), Value::Null);
            put("publish_mx type", "Xyz", plug::call("publish_mx", &mut m, &plug::custom("publish_mx", json!({"source": "in", "target": "out"}))).err().map(|e| e.to_string()));
            for (by, want, text) in r {
                let text = text.unwrap_or_else(|| "accepted".into());
                c.count("refusals_read", 1);
                if !mentions(&text, &want) {
                    c.fail(&format!("C36|{by}|absent|{}", if want.contains('.') { "type" } else { &want }), json!({"name": mt.short, "error": clip(&text, 300), "want": want}));
                }
            }
        });
    });
}
