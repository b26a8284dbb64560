//! C33: nothing is read in an element's place but the element itself
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::p_reject::is_mandatory;
use crate::p_types::{TYPED, module, value};
use crate::schema::*;
use mx_message::mx_envelope::MxMessage;
use serde_json::{Value, json};

/// names that stand for none of the given elements: every kind of near miss, and what the source mentions
fn other_names(c: &mut Case, name: &str, defined: &[&str], xml: bool) -> Vec<String> {
    let attr = name.starts_with('@');
    let n = name.trim_start_matches(['@', '$']).to_string();
    let d = c.run.dict;
    let r = &mut c.rng;
    let snake: String = n.chars().enumerate().flat_map(|(i, ch)| if ch.is_uppercase() && i > 0 { vec!['_', ch.to_ascii_lowercase()] } else { vec![ch.to_ascii_lowercase()] }).collect();
    let mut v = vec![n.to_lowercase(), n.to_uppercase(), n[..1].to_lowercase() + &n[1..], snake.clone(), snake.replace('_', "-"), snake.replace('_', ""), format!("{}_", snake)];
    for x in ["s", "x", "X", "1", "2", "_", ".", "-", "Id", "Cd", "Nm", "Dt", "V01"] {
        v.push(format!("{n}{x}"));
    }
    for x in ["X", "_", "x", "The", "Orgnl", "Ult"] {
        v.push(format!("{x}{n}"));
    }
    if n.len() > 2 {
        v.extend([n[..n.len() - 1].to_string(), n[1..].to_string()]);
        let k: Vec<char> = n.chars().collect();
        for i in 0..k.len() {
            let mut a = k.clone();
            a[i] = if k[i].is_uppercase() { k[i].to_ascii_lowercase() } else { k[i].to_ascii_uppercase() };
            v.push(a.iter().collect());
            if i + 1 < k.len() {
                let mut a = k.clone();
                a.swap(i, i + 1);
                v.push(a.into_iter().collect());
            }
        }
    }
    let long = n.replace("Nm", "Name").replace("Tp", "Type").replace("Amt", "Amount").replace("Dt", "Date").replace("Cd", "Code").replace("Ccy", "Currency").replace("Acct", "Account").replace("Nb", "Number").replace("Ctry", "Country").replace("Agt", "Agent").replace("Id", "Identification");
    v.extend([long.to_lowercase(), long]);
    // elements defined elsewhere
    for _ in 0..4 {
        let m = module(c.run.s, &TYPED[r.below(TYPED.len())]);
        let p = m.all_paths();
        v.push(m.field_at(&p[r.below(p.len())]).xml.trim_start_matches(['@', '$']).to_string());
    }
    if d.new_strings.len() <= 80 {
        v.extend(d.new_strings.iter().cloned());
    } else {
        v.extend((0..80).map(|_| r.pick(&d.new_strings).clone()));
    }
    if !d.strings.is_empty() {
        v.extend((0..4).map(|_| r.pick(&d.strings).clone()));
    }
    if !xml {
        v.extend(["#text", "value", "_", "text", "", "@", "@xmlns", "Value", "content"].map(str::to_string));
    }
    let name_like = |v: &str| v.chars().next().is_some_and(|k| k.is_alphabetic() || k == '_') && v.chars().all(|k| k.is_ascii_alphanumeric() || "._-".contains(k)) && !v.to_lowercase().starts_with("xml");
    if xml {
        v.retain(|x| name_like(x));
    }
    // quick-xml takes `$text` and `$value` for the text of the element
    v.retain(|x| !x.starts_with('$'));
    let mut v: Vec<String> = match (attr, xml) {
        (false, _) => v,
        (true, true) => v.into_iter().map(|x| format!("@{x}")).collect(),
        (true, false) => v.iter().cloned().chain(v.iter().map(|x| format!("@{x}"))).collect(),
    };
    v.retain(|x| !defined.contains(&x.as_str()) && x != name);
    v.sort();
    v.dedup();
    v
}
fn other_name(c: &mut Case, name: &str, defined: &[&str], xml: bool) -> Option<String> {
    let v = other_names(c, name, defined, xml);
    let new: Vec<&String> = v.iter().filter(|x| c.run.dict.new_strings.contains(x)).collect();
    if !new.is_empty() && c.rng.chance(0.5) {
        return Some((*c.rng.pick(&new)).clone());
    }
    if v.is_empty() { None } else { Some(c.rng.pick(&v).clone()) }
}
fn siblings<'a>(m: &'a Module, root: &Node, path: &[usize]) -> Vec<&'a str> {
    let parent = root.at(&path[..path.len() - 1]).unwrap();
    let Ty::Ref(t) = parent.ty else { unreachable!() };
    m.fields(t).iter().map(|f| f.xml.as_str()).collect()
}
/// the object at the path (last entry of every list)
fn object<'a>(v: &'a mut Value, m: &Module, path: &[usize]) -> Option<&'a mut serde_json::Map<String, Value>> {
    let mut v = v;
    for k in 1..=path.len() {
        v = v.get_mut(m.field_at(&path[..k]).xml.as_str())?;
        if v.is_array() {
            v = v.as_array_mut()?.last_mut()?;
        }
    }
    v.as_object_mut()
}
fn rename(v: &mut Value, m: &Module, path: &[usize], new: &str) -> bool {
    let (_, up) = path.split_last().unwrap();
    let Some(o) = object(v, m, up) else { return false };
    match o.remove(&m.field_at(path).xml) {
        Some(x) => {
            o.insert(new.to_string(), x);
            true
        }
        None => false,
    }
}
/// what reading gave against the content without the element: refused, or read as if it were not there
fn judge(c: &mut Case, f: &Field, left: usize, got: Result<Value, String>, want: &Value, sig: &str, new: &str, text: &str) {
    match got {
        Err(_) => c.count("refused", 1),
        Ok(v) => {
            if is_mandatory(f) && left == 0 {
                c.fail(&format!("C33|taken for a mandatory element|{sig}"), json!({"name": new, "text": clip(text, 6000)}));
            } else if let Some(d) = json_diff(want, &v, "") {
                c.fail(&format!("C33|taken for another element|{sig}"), json!({"name": new, "difference": d, "text": clip(text, 6000)}));
            } else {
                c.count("read_without_it", 1);
            }
        }
    }
}
/// content that makes up the stranger: whatever the message holds elsewhere
fn stranger(c: &mut Case, x: &str) -> String {
    // a complete element of the message, below an unknown name
    let starts: Vec<usize> = x.match_indices('<').map(|(i, _)| i).filter(|i| x[i + 1..].starts_with(|k: char| k.is_alphabetic())).collect();
    let mut inner = String::new();
    for _ in 0..1 + c.rng.below(2) {
        let i = *c.rng.pick(&starts);
        let tag: String = x[i + 1..].chars().take_while(|k| k.is_alphanumeric()).collect();
        let close = format!("</{tag}>");
        if let Some(e) = x[i..].find(&close) {
            let t = &x[i..i + e + close.len()];
            // an element of the same name nested inside would be cut short
            if t.matches(&format!("<{tag}>")).count() + t.matches(&format!("<{tag} ")).count() == 1 && t.len() < 5000 {
                inner.push_str(t);
            }
        }
    }
    let n = *c.rng.pick(&["Xtra", "SplmtryData", "Envlp", "Sgntr", "Hdr", "Body", "appHdr", "document", "Xchg"]);
    format!("<{n}>{inner}</{n}>")
}

pub fn c33(run: &Run) {
    run.rule("case = a message, a Document or a value of one of the 62 types in which one element or attribute (every element of every group, every path of the envelope's types) bears another name - another case, a near miss, a name defined elsewhere, the field's name in the program, a name found in the source - or in which an element or key that no type defines is put beside the others, in XML and in JSON; monitored: the text is refused, or read exactly as if the stranger were not there, and refused if it stood for a mandatory element; non-trivial = distinct texts");
    let mut by_field: std::collections::BTreeMap<(usize, usize), Vec<Vec<usize>>> = Default::default();
    for (i, t) in TYPED.iter().enumerate() {
        let m = module(run.s, t);
        for p in m.all_paths() {
            by_field.entry((i, m.field_at(&p) as *const Field as usize)).or_default().push(p);
        }
    }
    let fields: Vec<(usize, Vec<Vec<usize>>)> = by_field.into_iter().map(|(k, v)| (k.0, v)).collect();
    run.counter("elements_of_groups", fields.len() as u64);
    let sp = Space::new(run.s);
    run.counter("element_paths", sp.paths.len() as u64);
    run.rounds(|_| {
        run.par("type", 2 * fields.len() as u64, |c| {
            let (ti, ps) = &fields[c.idx as usize / 2];
            let p = c.rng.pick(ps).clone();
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let f = m.field_at(&p);
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 30, ..Cfg::default() };
            let mut n = value(c, m, &p, &cfg);
            let sig = format!("{}:{}", t.module, m.names(&p));
            let xml = c.idx % 2 == 0 && f.xml != "$value";
            let names = siblings(m, &n, &p);
            let Some(new) = other_name(c, &f.xml, &names, xml) else { return };
            c.saw("stand_ins", new.as_bytes());
            if xml {
                let at = n.at(&p).unwrap() as *const Node as usize;
                let x = renamed(at, &new, || {
                    let mut w = XmlW::new(XmlStyle::default());
                    w.elem(m, "R", &n, 0, "");
                    w.out
                });
                let s = n.slot_mut(&p).unwrap();
                s.occ.pop();
                let left = s.occ.len();
                c.eval(x.as_bytes());
                judge(c, f, left, (t.x2j)(&x), &to_json(m, &n), &sig, &new, &x);
            } else {
                let mut j = to_json(m, &n);
                if !rename(&mut j, m, &p, &new) {
                    return;
                }
                n.slot_mut(&p).unwrap().occ.clear();
                c.eval(j.to_string().as_bytes());
                judge(c, f, 0, (t.j2x)(&j.to_string()).map(|v| v.1), &to_json(m, &n), &sig, &new, &j.to_string());
            }
        });
        // all other names at once; one after the other if the crowd is refused
        run.par("crowd", 2 * fields.len() as u64, |c| {
            let (ti, ps) = &fields[c.idx as usize / 2];
            let p = c.rng.pick(ps).clone();
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let f = m.field_at(&p);
            let mut n = value(c, m, &p, &Cfg { p_opt: 0.0, budget: 30, ..Cfg::default() });
            let sig = format!("{}:{}", t.module, m.names(&p));
            let xml = c.idx % 2 == 0 && f.xml != "$value";
            let names = other_names(c, &f.xml, &siblings(m, &n, &p), xml);
            c.count("names_tried", names.len() as u64);
            let full = to_json(m, &n);
            let text: Box<dyn Fn(&[String]) -> String> = if xml {
                let at = n.at(&p).unwrap() as *const Node as usize;
                let x = renamed(at, "QQ0", || {
                    let mut w = XmlW::new(XmlStyle::default());
                    w.elem(m, "R", &n, 0, "");
                    w.out
                });
                let (a, b) = if f.xml.starts_with('@') {
                    let a = x.find(" QQ0=").unwrap();
                    (a, a + 7 + x[a + 6..].find('"').unwrap())
                } else {
                    let a = x.find("<QQ0").unwrap();
                    (a, x.find("</QQ0>").map_or_else(|| a + x[a..].find("/>").unwrap() + 2, |e| e + 6))
                };
                Box::new(move |names| {
                    let each: String = names.iter().map(|k| x[a..b].replace("QQ0", k.trim_start_matches('@'))).collect();
                    format!("{}{each}{}", &x[..a], &x[b..])
                })
            } else {
                let p = p.clone();
                Box::new(move |names| {
                    let mut j = full.clone();
                    let Some(o) = object(&mut j, m, &p[..p.len() - 1]) else { return String::new() };
                    if let Some(v) = o.remove(&m.field_at(&p).xml) {
                        for k in names {
                            o.insert(k.clone(), v.clone());
                        }
                    }
                    j.to_string()
                })
            };
            let s = n.slot_mut(&p).unwrap();
            if xml {
                s.occ.pop();
            } else {
                s.occ.clear();
            }
            let left = s.occ.len();
            let want = to_json(m, &n);
            let read = |x: &str| if xml { (t.x2j)(x) } else { (t.j2x)(x).map(|v| v.1) };
            let all = text(&names);
            if all.is_empty() {
                return;
            }
            c.eval(all.as_bytes());
            let got = read(&all);
            let refused = got.is_err();
            judge(c, f, left, got, &want, &sig, "all of them", &all);
            if refused && !(is_mandatory(f) && left == 0) {
                c.count("crowds_refused", 1);
                for k in &names {
                    let x = text(std::slice::from_ref(k));
                    judge(c, f, left, read(&x), &want, &sig, k, &x);
                }
            } else if refused {
                // the field is mandatory: a name that stands for it twice would hide behind the other refusal
                for k in names.iter().filter(|k| c.run.dict.new_strings.contains(k)) {
                    let x = text(std::slice::from_ref(k));
                    judge(c, f, left, read(&x), &want, &sig, k, &x);
                }
            }
        });
        run.par("message", sp.paths.len() as u64, |c| {
            let (t, p) = &sp.paths[c.idx as usize];
            let mt = &MTS[*t];
            let (dm, hm) = (c.run.s.doc(mt.module), hdr_module(c.run.s));
            let hdr = c.rng.chance(0.1);
            let hp = c.rng.pick(&sp.hdr_paths).clone();
            let none = vec![];
            let (p, hp) = if hdr { (&none, &hp) } else { (p, &none) };
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 40, ..Cfg::default() };
            let mut g = message(c.run.s, mt, p, hp, &mut c.rng, &cfg, Some(c.run.dict));
            let (m, p) = if hdr { (hm, hp) } else { (dm, p) };
            let f = m.field_at(p);
            // naming the type by another element is C16's matter
            if hdr && f.xml == "MsgDefIdr" {
                return;
            }
            let sig = format!("{}:{}", if hdr { "AppHdr" } else { mt.short }, m.names(p));
            let tree = if hdr { &g.hdr } else { &g.doc };
            let xml = c.rng.chance(0.6) && f.xml != "$value";
            let names = siblings(m, tree, p);
            let Some(new) = other_name(c, &f.xml, &names, xml) else { return };
            c.saw("stand_ins", new.as_bytes());
            let at = tree.at(p).unwrap() as *const Node as usize;
            let (text, other) = if xml {
                let st = if c.rng.chance(0.7) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
                (renamed(at, &new, || envelope(hm, dm, mt.tag, &g, &st)), renamed(at, &new, || document_only(dm, mt.tag, &g.doc, &EnvStyle::plain())))
            } else {
                let mut j = msg_json(c.run.s, mt, &g);
                let part = if hdr { &mut j["AppHdr"] } else { &mut j["Document"][mt.tag] };
                if !rename(part, m, p, &new) {
                    return;
                }
                (j.to_string(), String::new())
            };
            c.eval(text.as_bytes());
            let s = if hdr { &mut g.hdr } else { &mut g.doc }.slot_mut(p).unwrap();
            if xml {
                s.occ.pop();
            } else {
                s.occ.clear();
            }
            let left = s.occ.len();
            let want = msg_json(c.run.s, mt, &g);
            let got = if xml { MxMessage::from_xml(&text) } else { MxMessage::from_json(&text) };
            let got = got.map_err(|e| e.to_string()).and_then(|m| to_value(&m)).map(no_ns);
            judge(c, f, left, got, &want, &sig, &new, &text);
            if xml && !hdr && c.idx % 3 == 0 {
                let got = mx_message::xml::xml_to_json_via_document(&other, mt.full).map_err(|e| e.to_string());
                let want = json!({"Document": {mt.tag: to_json(dm, &g.doc)}});
                judge(c, f, left, got, &want, &format!("Document alone:{sig}"), &new, &other);
            }
            c.sample(|| json!({"element": sig, "name": new}));
        });
        // the message element itself
        run.par("root", 4 * MTS.len() as u64, |c| {
            let mt = &MTS[c.idx as usize / 4];
            let (dm, hm) = (c.run.s.doc(mt.module), hdr_module(c.run.s));
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.0, budget: 30, ..Cfg::default() }, None);
            let defined: Vec<&str> = MTS.iter().flat_map(|m| [m.tag, m.rust]).collect();
            let xml = c.idx % 4 < 3;
            let mut names = other_names(c, mt.tag, &defined, true);
            names.push(mt.full.into());
            names.push(mt.short.into());
            names.push(mt.variant.into());
            if !xml {
                names.extend(["value".into(), "@xmlns".into(), "Unknown".into(), mt.rust.into()]);
            }
            names.retain(|n| !MTS.iter().any(|m| m.tag == n));
            let x = envelope(hm, dm, mt.tag, &g, &if c.idx % 4 < 2 { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) });
            let j = msg_json(c.run.s, mt, &g);
            for n in names {
                let (got, text) = if xml {
                    let re = regex::Regex::new(&format!(r"(</?(?:\w+:)?){}\b", mt.tag)).unwrap();
                    let t = re.replace_all(&x, format!("${{1}}{n}")).into_owned();
                    (MxMessage::from_xml(&t), t)
                } else {
                    let mut k = j.clone();
                    let d = k["Document"].as_object_mut().unwrap();
                    let v = d.remove(mt.tag).unwrap();
                    d.insert(n.clone(), v);
                    let t = k.to_string();
                    (MxMessage::from_json(&t), t)
                };
                c.eval(text.as_bytes());
                c.saw("stand_ins", n.as_bytes());
                match got {
                    Err(_) => c.count("refused", 1),
                    Ok(_) => c.fail(&format!("C33|taken for the message element|{}", mt.tag), json!({"name": n, "json": !xml, "text": clip(&text, 6000)})),
                }
            }
        });
        run.par("stranger", 6000, |c| {
            let (t, p) = c.rng.pick(&sp.paths).clone();
            let mt = &MTS[t];
            let (dm, hm) = (c.run.s.doc(mt.module), hdr_module(c.run.s));
            let g = message(c.run.s, mt, &p, &[], &mut c.rng, &Cfg { p_opt: 0.1, budget: 40, ..Cfg::default() }, Some(c.run.dict));
            let want = msg_json(c.run.s, mt, &g);
            if c.idx % 2 == 0 {
                let x = envelope(hm, dm, mt.tag, &g, &EnvStyle::plain());
                let s = stranger(c, &x);
                // between two tags, anywhere: the envelope itself, the header, the document
                let places: Vec<usize> = x.match_indices("><").map(|(i, _)| i + 1).filter(|i| !x[..*i].ends_with("?>") && x[..*i].contains("Envelope")).collect();
                let near: Vec<usize> = ["<AppHdr", "</AppHdr>", "<Document", "</Document>", "</Envelope>"].iter().filter_map(|t| x.rfind(t)).flat_map(|i| [i]).collect();
                let i = if c.rng.chance(0.4) { *c.rng.pick(&near) } else { *c.rng.pick(&places) };
                // an empty element is `<A></A>`: what stands inside would be its text or content
                if x[..i].ends_with('>') && !x[i..].starts_with("</") || near.contains(&i) {
                    let y = format!("{}{s}{}", &x[..i], &x[i..]);
                    c.eval(y.as_bytes());
                    match MxMessage::from_xml(&y) {
                        Err(_) => c.count("strangers_refused", 1),
                        Ok(m) => match to_value(&m).map(no_ns) {
                            Ok(v) => {
                                c.count("strangers_ignored", 1);
                                if let Some(d) = json_diff(&want, &v, "") {
                                    c.fail(&format!("C33|an unknown element changes the message|{}", mt.short), json!({"stranger": s, "difference": d, "xml": clip(&y, 6000)}));
                                }
                            }
                            Err(e) => c.fail(&format!("C33|unwritable|{}", mt.short), json!({"error": e, "xml": clip(&y, 6000)})),
                        },
                    }
                }
            } else {
                let mut j = want.clone();
                let k = ["Xtra", "SplmtryData", "x", "appHdr", "document", "Id2", "$schema", "_comment", ""][c.rng.below(9)];
                let v = match c.rng.below(5) { 0 => json!(null), 1 => json!({"Id": "X", "MsgId": "Y"}), 2 => json!([1, "a", {}]), 3 => want["AppHdr"].clone(), _ => json!("x") };
                match c.rng.below(4) {
                    0 => j[k] = v,
                    1 => j["AppHdr"][k] = v,
                    2 => j["Document"][mt.tag][k] = v,
                    _ => {
                        let (_, up) = p.split_last().unwrap();
                        if let Some(o) = object(&mut j["Document"][mt.tag], dm, up) {
                            o.insert(k.to_string(), v);
                        }
                    }
                }
                let t = j.to_string();
                c.eval(t.as_bytes());
                match MxMessage::from_json(&t) {
                    Err(_) => c.count("strangers_refused", 1),
                    Ok(m) => {
                        c.count("strangers_ignored", 1);
                        if let Some(d) = to_value(&m).ok().and_then(|v| json_diff(&want, &v, "")) {
                            c.fail(&format!("C33|an unknown key changes the message|{}", mt.short), json!({"key": k, "difference": d, "json": clip(&t, 6000)}));
                        }
                    }
                }
            }
        });
    });
}
fn no_ns(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("@xmlns");
        o.remove("@xmlns:xsi");
    }
    v
}
