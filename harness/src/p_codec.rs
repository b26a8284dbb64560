//! Monitors over the XML/JSON codec: C01..C09, C26, C27, C29
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::xmlp;
use mx_message::mx_envelope::MxMessage;
use serde_json::{Value, json};

pub const LIST_SIZES: &[usize] = &[2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257];

pub fn vary(c: &mut Case) -> Cfg {
    let r = &mut c.rng;
    let mut k = Cfg { p_opt: *r.pick(&[0.0, 0.05, 0.15, 0.3]), budget: *r.pick(&[40, 120, 300]), ..Cfg::default() };
    k.text = if r.chance(0.25) { Text::Boundary } else { Text::Valid };
    if r.chance(0.1) {
        k.text = Text::Usual;
    }
    k.forced_rep = *r.pick(&[1, 1, 2, 3]);
    k.near = *r.pick(&[0.0, 0.05, 0.3]);
    k
}
/// texts of any form
pub fn vary_lax(c: &mut Case) -> Cfg {
    Cfg { lax: true, ..vary(c) }
}
pub fn fresh<'a>(c: &mut Case<'a>, sp: &Space, cfg: &Cfg) -> (&'static MT, Msg, String) {
    let (t, p) = &sp.paths[c.idx as usize % sp.paths.len()];
    let hp = &sp.hdr_paths[c.idx as usize % sp.hdr_paths.len()];
    let mt = &MTS[*t];
    let name = format!("{}:{}", mt.short, c.run.s.doc(mt.module).names(p));
    let g = message(c.run.s, mt, p, hp, &mut c.rng, cfg, Some(c.run.dict));
    c.saw("element_paths", name.as_bytes());
    c.saw("message_types", mt.short.as_bytes());
    (mt, g, name)
}
/// a message of one type stressed on size: many optional elements, or long lists
pub fn big<'a>(c: &mut Case<'a>, sp: &Space) -> (&'static MT, Msg, String) {
    let mut sizes = LIST_SIZES.to_vec();
    let extra = c.run.dict.sizes(3000);
    sizes.extend(&extra);
    sizes.extend(&extra);
    let n = *c.rng.pick(&sizes);
    let lists: Vec<&(usize, Vec<usize>)> = sp.paths.iter().filter(|(t, p)| matches!(c.run.s.doc(MTS[*t].module).field_at(p).card, Card::Vec | Card::OptVec)).collect();
    let (mt, path, cfg) = if c.idx % 3 == 0 {
        (&MTS[c.idx as usize / 3 % MTS.len()], vec![], Cfg { p_opt: 0.75, budget: *c.rng.pick(&[1000, 3000]), ..Cfg::default() })
    } else {
        let (t, p) = lists[c.rng.below(lists.len())];
        (&MTS[*t], p.clone(), Cfg { p_opt: 0.02, budget: 200, forced_rep: n, ..Cfg::default() })
    };
    let g = message(c.run.s, mt, &path, &[], &mut c.rng, &cfg, Some(c.run.dict));
    c.count("long_list_or_large_messages", 1);
    (mt, g, format!("{}:large:{}x{}", mt.short, c.run.s.doc(mt.module).names(&path), n))
}
fn xml_of(c: &Case, mt: &MT, g: &Msg, st: &EnvStyle) -> String {
    envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, g, st)
}
/// the three workload families every codec monitor runs over
fn families(run: &Run, quick_big: u64, f: impl Fn(&mut Case, &MT, &Msg, &str) + Sync) {
    let sp = Space::new(run.s);
    let codes = code_cases(run.s, &sp);
    let lists: Vec<&(usize, Vec<usize>)> = sp.paths.iter().filter(|(t, p)| matches!(run.s.doc(MTS[*t].module).field_at(p).card, Card::Vec | Card::OptVec)).collect();
    run.counter("list_paths", lists.len() as u64);
    run.rounds(|_| {
        run.par("path", sp.paths.len() as u64, |c| {
            let cfg = vary_lax(c);
            let (mt, g, name) = fresh(c, &sp, &cfg);
            f(c, mt, &g, &name);
        });
        run.par("large", quick_big, |c| {
            let (mt, g, name) = big(c, &sp);
            f(c, mt, &g, &name);
        });
        run.par("code", codes.len() as u64, |c| {
            let (mt, g, name) = coded(c, &codes);
            f(c, mt, &g, &name);
        });
        run.par("repeated", lists.len() as u64, |c| {
            let (t, p) = lists[c.idx as usize];
            let mt = &MTS[*t];
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1, 0.3]), budget: 60, near: 0.1, lax: true, ..Cfg::default() };
            let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &cfg, Some(c.run.dict));
            let kinds = repeat_entries(c.run.s, mt, p, &mut g.doc, &mut c.rng);
            c.saw("repetition_patterns", kinds.as_bytes());
            let name = format!("{}:{}", mt.short, c.run.s.doc(mt.module).names(p));
            f(c, mt, &g, &name);
        });
        run.par("huge", (3 * MTS.len()) as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let Some((g, name)) = huge(c, mt) else { return };
            f(c, mt, &g, &name);
        });
    });
    run.rule("case = one generated message per element path of all 25 registered message types (every path forced present once per round), one per code of every code list (forced at one of its paths), one per list path with two to six entries of which some are equal, plus large messages, long lists and messages of 5 kB to 2.2 MB; non-trivial = distinct (type, path, rendered content)");
}
/// a message of 5 kB to some MB
pub fn huge(c: &mut Case, mt: &'static MT) -> Option<(Msg, String)> {
    let b = *c.rng.pick(&byte_sizes(c.run.dict));
    let mut g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.1, budget: 60, ..Cfg::default() }, None);
    let what = bulk(c.run.s, mt, &mut g, b, &mut c.rng)?;
    c.count("huge_messages", 1);
    Some((g, format!("{}:huge:{what}", mt.short)))
}
/// Replaces the list at `p` by a list of few distinct entries in a random arrangement (AA, ABA, AAB, ...)
pub fn repeat_entries(s: &'static Schema, mt: &'static MT, p: &[usize], doc: &mut Node, r: &mut Rng) -> String {
    // a second entry: another message's entry at the same place
    let g = message(s, mt, p, &[], r, &Cfg { p_opt: 0.2, budget: 60, ..Cfg::default() }, None);
    repeat_with(p, doc, g.doc, r)
}
pub fn repeat_with(p: &[usize], doc: &mut Node, mut doc2: Node, r: &mut Rng) -> String {
    let last = p[p.len() - 1];
    let first = doc.at_mut(p).unwrap().clone();
    let second = doc2.at_mut(p).unwrap().clone();
    let n = r.range(2, 6);
    let arr: Vec<bool> = (0..n).map(|_| r.chance(0.5)).collect();
    let parent = if p.len() == 1 { doc } else { doc.at_mut(&p[..p.len() - 1]).unwrap() };
    let Body::Struct(slots) = &mut parent.body else { unreachable!() };
    let slot = slots.iter_mut().find(|x| x.field == last).unwrap();
    slot.occ = arr.iter().map(|b| if *b { first.clone() } else { second.clone() }).collect();
    arr.iter().map(|b| if *b { 'A' } else { 'B' }).collect()
}
pub struct CodeCase {
    /// None: the header
    pub mt: Option<usize>,
    pub paths: Vec<Vec<usize>>,
    pub code: String,
}
/// every code of every code list of every module, with all paths that hold it
pub fn code_cases(s: &Schema, sp: &Space) -> Vec<CodeCase> {
    let mut by: std::collections::BTreeMap<(Option<usize>, usize), Vec<Vec<usize>>> = Default::default();
    for (t, p) in &sp.paths {
        if let Ty::Ref(e) = s.doc(MTS[*t].module).field_at(p).ty {
            if s.doc(MTS[*t].module).is_enum(e) {
                by.entry((Some(*t), e)).or_default().push(p.clone());
            }
        }
    }
    for p in &sp.hdr_paths {
        if let Ty::Ref(e) = hdr_module(s).field_at(p).ty {
            if hdr_module(s).is_enum(e) {
                by.entry((None, e)).or_default().push(p.clone());
            }
        }
    }
    let mut out = vec![];
    for ((mt, e), paths) in by {
        let m = mt.map_or(hdr_module(s), |t| s.doc(MTS[t].module));
        if let Kind::Enum(vs) = &m.types[e].kind {
            for v in vs {
                out.push(CodeCase { mt, paths: paths.clone(), code: v.clone() });
            }
        }
    }
    out
}
/// a message holding the given code at one of its places
pub fn coded(c: &mut Case, codes: &[CodeCase]) -> (&'static MT, Msg, String) {
    let k = &codes[c.idx as usize];
    let p = c.rng.pick(&k.paths).clone();
    let cfg = vary_lax(c);
    let mt = match k.mt { Some(t) => &MTS[t], None => &MTS[c.rng.below(MTS.len())] };
    let empty: Vec<usize> = vec![];
    let (dp, hp) = if k.mt.is_some() { (&p, &empty) } else { (&empty, &p) };
    let mut g = message(c.run.s, mt, dp, hp, &mut c.rng, &cfg, Some(c.run.dict));
    let n = if k.mt.is_some() { g.doc.at_mut(&p) } else { g.hdr.at_mut(&p) };
    n.unwrap().body = Body::Enum(k.code.clone());
    let name = match k.mt {
        Some(_) => format!("{}:{}={}", mt.short, c.run.s.doc(mt.module).names(&p), k.code),
        None => format!("header:{}={}", hdr_module(c.run.s).names(&p), k.code),
    };
    c.saw("codes", format!("{:?}|{}|{}", k.mt, k.paths.len(), k.code).as_bytes());
    (mt, g, name)
}
fn key(name: &str, v: &Value) -> Vec<u8> {
    format!("{name}|{v}").into_bytes()
}

// C01 -----------------------------------------------------------------
pub fn c01(run: &Run) {
    let f = |c: &mut Case, mt: &MT, g: &Msg, name: &str| {
        let j = msg_json(c.run.s, mt, g);
        let text = j.to_string();
        let m = match MxMessage::from_json(&text) {
            Ok(m) => m,
            Err(e) => {
                c.count("messages_not_built", 1);
                return c.fail(&format!("C01|build|{name}"), json!({"why": "a conforming message could not be built from JSON", "error": e.to_string(), "json": clip(&text, 4000)}));
            }
        };
        c.eval(&key(name, &j));
        let x = match m.to_xml() {
            Ok(x) => x,
            Err(e) => return c.fail(&format!("C01|to_xml|{name}"), json!({"error": e.to_string(), "json": clip(&text, 4000)})),
        };
        match MxMessage::from_xml(&x) {
            Err(e) => c.fail(&format!("C01|reparse|{name}"), json!({"error": e.to_string(), "xml": clip(&x, 6000)})),
            Ok(n) => {
                if n != m {
                    let d = match (to_value(&m), to_value(&n)) {
                        (Ok(a), Ok(b)) => json_diff(&a, &b, ""),
                        _ => None,
                    };
                    return c.fail(&format!("C01|differs|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
                }
                // serialization is stable: writing the re-read message gives the same bytes
                match n.to_xml() {
                    Ok(y) if y == x => {}
                    _ => c.fail(&format!("C01|unstable|{name}"), json!({"xml": clip(&x, 6000)})),
                }
                c.count("bytes_round_tripped", x.len() as u64);
            }
        }
        c.sample(|| json!({"message": name, "xml": clip(&x, 600)}));
    };
    families(run, 240, f);
    // hostile text is C06's subject, but the round trip must hold for it as well
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("hostile", if run.thorough() { 6000 } else { 1500 }, |c| {
            let k = c.rng.below(sp.paths.len());
            let (t, p) = &sp.paths[k];
            let cfg = Cfg { text: Text::Hostile, ..Cfg::default() };
            let g = message(c.run.s, &MTS[*t], p, &[], &mut c.rng, &cfg, Some(c.run.dict));
            let name = format!("{}:hostile:{k}", MTS[*t].short);
            f(c, &MTS[*t], &g, &name);
        })
    });
}

// C02 -----------------------------------------------------------------
fn shuffled(v: &Value, r: &mut crate::rng::Rng, out: &mut String) {
    match v {
        Value::Object(o) => {
            let mut ks: Vec<_> = o.iter().collect();
            for i in (1..ks.len()).rev() {
                let j = r.below(i + 1);
                ks.swap(i, j);
            }
            out.push('{');
            for (i, (k, w)) in ks.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if r.chance(0.2) {
                    out.push('\n');
                }
                out.push_str(&Value::String(k.clone()).to_string());
                out.push_str(if r.chance(0.5) { " : " } else { ":" });
                shuffled(w, r, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, w) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                shuffled(w, r, out);
            }
            out.push(']');
        }
        Value::String(s) if r.chance(0.3) => {
            out.push('"');
            for c in s.chars() {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            }
            out.push('"');
        }
        _ => out.push_str(&v.to_string()),
    }
}
pub fn c02(run: &Run) {
    let f = |c: &mut Case, mt: &MT, g: &Msg, name: &str| {
        let j = msg_json(c.run.s, mt, g);
        let mut text = String::new();
        shuffled(&j, &mut c.rng, &mut text);
        c.eval(&key(name, &j));
        let m = match MxMessage::from_json(&text) {
            Ok(m) => m,
            Err(e) => return c.fail(&format!("C02|read|{name}"), json!({"error": e.to_string(), "json": clip(&text, 6000)})),
        };
        match to_value(&m) {
            Err(e) => c.fail(&format!("C02|write|{name}"), json!({"error": e, "json": clip(&text, 6000)})),
            Ok(v) => {
                if let Some(d) = json_diff(&j, &v, "") {
                    return c.fail(&format!("C02|differs|{name}"), json!({"difference": d, "json": clip(&text, 6000)}));
                }
                let again = m.to_json().ok().and_then(|t| MxMessage::from_json(&t).ok());
                if again.as_ref() != Some(&m) {
                    c.fail(&format!("C02|reread|{name}"), json!({"json": clip(&text, 6000)}));
                }
                // a value, a stream and a copy hold the same message
                if m.clone() != m {
                    c.fail(&format!("C02|copy differs|{name}"), json!({"json": clip(&text, 6000)}));
                }
                let other: Result<MxMessage, _> = match c.rng.below(3) {
                    0 => serde_json::from_value(j.clone()),
                    1 => serde_json::from_reader(text.as_bytes()),
                    _ => serde_json::from_slice(text.as_bytes()),
                };
                match other {
                    Ok(o) if o == m => c.count("read_as_value_or_stream", 1),
                    Ok(_) => c.fail(&format!("C02|value or stream read differently|{name}"), json!({"json": clip(&text, 6000)})),
                    Err(e) => c.fail(&format!("C02|value or stream refused|{name}"), json!({"error": e.to_string(), "json": clip(&text, 6000)})),
                }
            }
        }
        c.sample(|| json!({"message": name, "json": clip(&text, 600)}));
    };
    families(run, 240, f);
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("texts", 2 * sp.paths.len() as u64, |c| {
            let k = c.idx as usize / 2;
            let (t, p) = &sp.paths[k];
            let text = if c.idx % 2 == 0 { *c.rng.pick(&[Text::Hostile, Text::Spaced]) } else { Text::Blank };
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 40, text, ..Cfg::default() };
            let g = message(c.run.s, &MTS[*t], p, &[], &mut c.rng, &cfg, Some(c.run.dict));
            f(c, &MTS[*t], &g, &format!("{}:hostile:{k}", MTS[*t].short));
        })
    });
}

// C03 -----------------------------------------------------------------
pub fn check_ingest(c: &mut Case, prop: &str, name: &str, xml: &str, want: &Value, ignore_ns: bool) -> Option<MxMessage> {
    match MxMessage::from_xml(xml) {
        Err(e) => {
            c.fail(&format!("{prop}|rejected|{name}"), json!({"error": e.to_string(), "xml": clip(xml, 8000)}));
            None
        }
        Ok(m) => match to_value(&m) {
            Err(e) => {
                c.fail(&format!("{prop}|to_json|{name}"), json!({"error": e, "xml": clip(xml, 8000)}));
                None
            }
            Ok(mut v) => {
                if ignore_ns {
                    if let Some(o) = v.as_object_mut() {
                        o.remove("@xmlns");
                        o.remove("@xmlns:xsi");
                    }
                }
                if let Some(d) = json_diff(want, &v, "") {
                    c.fail(&format!("{prop}|differs|{name}"), json!({"difference": d, "xml": clip(xml, 8000)}));
                    None
                } else {
                    Some(m)
                }
            }
        },
    }
}
pub fn c03(run: &Run) {
    families(run, 300, |c, mt, g, name| {
        let st = if c.idx % 2 == 0 { EnvStyle::plain() } else { EnvStyle { xml: XmlStyle { pretty: true, ..Default::default() }, decl: DECLS[1], ..EnvStyle::plain() } };
        let x = xml_of(c, mt, g, &st);
        let want = msg_json(c.run.s, mt, g);
        c.eval(&key(name, &want));
        check_ingest(c, "C03", name, &x, &want, false);
        c.count("elements_ingested", (g.doc.count() + g.hdr.count()) as u64);
        c.sample(|| json!({"message": name, "xml": clip(&x, 600)}));
    });
    // elements that hold nothing, or nothing but white space, are there all the same
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("blank", sp.paths.len() as u64, |c| {
            let (t, p) = &sp.paths[c.idx as usize];
            let mt = &MTS[*t];
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 40, text: Text::Blank, ..Cfg::default() };
            let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &cfg, Some(c.run.dict));
            let name = format!("{}:blank:{}", mt.short, c.run.s.doc(mt.module).names(p));
            for (m, n) in [(c.run.s.doc(mt.module), &mut g.doc), (hdr_module(c.run.s), &mut g.hdr)] {
                n.walk_mut(m, &mut |f, n| {
                    if let Body::Str(v) = &mut n.body {
                        v.retain(|x| x != '\r' && !(f.xml.starts_with('@') && x.is_whitespace()));
                    }
                });
            }
            let st = EnvStyle::plain();
            let x = xml_of(c, mt, &g, &st);
            for (m, n) in [(c.run.s.doc(mt.module), &mut g.doc), (hdr_module(c.run.s), &mut g.hdr)] {
                n.walk_mut(m, &mut |f, n| {
                    if let Body::Str(v) = &mut n.body {
                        if !f.xml.starts_with('@') {
                            *v = v.trim_matches([' ', '\t', '\r', '\n']).to_string();
                        }
                    }
                });
            }
            let want = msg_json(c.run.s, mt, &g);
            c.eval(&key(&name, &want));
            check_ingest(c, "C03", &name, &x, &want, false);
        });
    });
}

// C04 -----------------------------------------------------------------
pub fn check_emitted(s: &Schema, mt: &MT, g: &Msg, xml: &str) -> Result<(), String> {
    let e = xmlp::parse(xml).map_err(|e| format!("not well-formed: {e}"))?;
    if e.name != "Envelope" || e.kids.len() != 2 || e.kids[0].name != "AppHdr" || e.kids[1].name != "Document" || !e.text.trim().is_empty() {
        return Err(format!("envelope is <{}> with {:?}", e.name, e.kids.iter().map(|k| &k.name).collect::<Vec<_>>()));
    }
    if e.kids[1].kids.len() != 1 || e.kids[1].kids[0].name != mt.tag || !e.kids[1].text.trim().is_empty() {
        return Err(format!("Document holds {:?}", e.kids[1].kids.iter().map(|k| &k.name).collect::<Vec<_>>()));
    }
    xmlp::matches(hdr_module(s), &g.hdr, &e.kids[0], "/AppHdr")?;
    xmlp::matches(s.doc(mt.module), &g.doc, &e.kids[1].kids[0], &format!("/Document/{}", mt.tag))
}
pub fn c04(run: &Run) {
    let f = |c: &mut Case, mt: &MT, g: &Msg, name: &str| {
        let j = msg_json(c.run.s, mt, g);
        let text = j.to_string();
        c.eval(&key(name, &j));
        let x = match MxMessage::from_json(&text).and_then(|m| m.to_xml()) {
            Ok(x) => x,
            Err(e) => return c.fail(&format!("C04|refused|{name}"), json!({"error": e.to_string(), "json": clip(&text, 6000)})),
        };
        if let Err(d) = check_emitted(c.run.s, mt, g, &x) {
            c.fail(&format!("C04|differs|{name}"), json!({"difference": d, "xml": clip(&x, 8000), "json": clip(&text, 6000)}));
        }
        c.count("elements_emitted", (g.doc.count() + g.hdr.count()) as u64);
        c.sample(|| json!({"message": name, "xml": clip(&x, 600)}));
    };
    families(run, 300, f);
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("texts", 2 * sp.paths.len() as u64, |c| {
            let (t, p) = &sp.paths[c.idx as usize / 2];
            let text = if c.idx % 2 == 0 { *c.rng.pick(&[Text::Hostile, Text::Spaced]) } else { Text::Blank };
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 40, text, ..Cfg::default() };
            let g = message(c.run.s, &MTS[*t], p, &[], &mut c.rng, &cfg, Some(c.run.dict));
            f(c, &MTS[*t], &g, &format!("{}:texts:{}", MTS[*t].short, c.run.s.doc(MTS[*t].module).names(p)));
        })
    });
}

// C05 -----------------------------------------------------------------
pub fn c05(run: &Run) {
    let sp = Space::new(run.s);
    run.rule("case = one message written twice: compactly, and with a random layout (indentation, CRLF, comments, processing instructions, CDATA sections, character references, self-closing empty elements, quote style, white space in tags and around text, XML declaration, namespace attributes); non-trivial = distinct content and layout");
    run.rounds(|_| {
        run.par("layout", sp.paths.len() as u64, |c| {
            let mut cfg = vary_lax(c);
            if c.rng.chance(0.15) {
                cfg.text = Text::Hostile;
            }
            let (mt, g, name) = fresh(c, &sp, &cfg);
            let st = EnvStyle::random(&mut c.rng, mt.full);
            let x = xml_of(c, mt, &g, &st);
            c.eval(x.as_bytes());
            c.saw("layouts", format!("{:?}", XmlStyle { alt_escape: (st.xml.alt_escape != 0) as u64, seed: 0, ..st.xml }).as_bytes());
            let mut want = msg_json(c.run.s, mt, &g);
            if st.xml.pad_text || cfg.text == Text::Hostile {
                // nothing: generated values carry no outer white space
            }
            if let Some(m) = check_ingest(c, "C05", &name, &x, &want, true) {
                let p = xml_of(c, mt, &g, &EnvStyle::plain());
                match MxMessage::from_xml(&p) {
                    Ok(n) if n.app_hdr == m.app_hdr && n.document == m.document => {}
                    Ok(_) => c.fail(&format!("C05|unequal|{name}"), json!({"xml": clip(&x, 8000)})),
                    Err(e) => c.fail(&format!("C05|compact|{name}"), json!({"error": e.to_string(), "xml": clip(&p, 8000)})),
                }
            }
            want.take();
            c.sample(|| json!({"message": name, "xml": clip(&x, 900)}));
        })
    });
}

// C06 -----------------------------------------------------------------
/// long, adversarial texts for one position
fn nasty(c: &mut Case, hdr: bool) -> String {
    let r = &mut c.rng;
    let mut t = match r.below(8) {
        0 => r.pick(HOSTILE).to_string(),
        1 => format!("x{}y", r.pick(HOSTILE)),
        2 => r.pick(HOSTILE).repeat(1 + r.below(20)),
        3 => {
            let mt = &MTS[r.below(MTS.len())];
            let w = *r.pick(&[mt.tag, mt.rust, "AppHdr", "Document", "Envelope", "BusinessApplicationHeaderV02", "MsgDefIdr"]);
            match r.below(5) {
                0 => format!("<{w}>"),
                1 => format!("</{w}>"),
                2 => format!("<{w}>x</{w}>"),
                3 => format!("</{w}><{w}>"),
                _ => format!("&lt;{w}&gt;"),
            }
        }
        4 => "&<>\"'".chars().map(|x| x.to_string().repeat(1 + r.below(3))).collect(),
        5 => {
            let n = *r.pick(&[255usize, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65536]);
            let u = *r.pick(&["a", "é", "中", "<", "&", "]]>", "\u{1F600}"]);
            u.repeat(n / u.len() + 1)
        }
        _ => hostile(r),
    };
    if !c.run.dict.strings.is_empty() && c.rng.chance(0.25) {
        let d = c.rng.pick(&c.run.dict.strings).clone();
        t = match c.rng.below(3) { 0 => d, 1 => format!("{t}{d}"), _ => format!("a{d}b") };
    }
    if !c.run.dict.new_strings.is_empty() && c.rng.chance(0.3) {
        let d = c.rng.pick(&c.run.dict.new_strings).clone();
        t = match c.rng.below(3) { 0 => d, 1 => format!("{t}{d}"), _ => format!("a{d}b") };
    }
    let t: String = t.chars().filter(|ch| !ch.is_control() || *ch == '\n' || *ch == '\t' || *ch == '\r').collect();
    let t = t.trim_matches(crate::gen_::is_text_space).to_string();
    let _ = hdr;
    if t.is_empty() { "x".into() } else { t }
}
pub fn c06(run: &Run) {
    run.rule("case = a message in which every text field (header and document), or one chosen text field, holds adversarial text (markup, entities, CDATA ends, envelope and type tag names, names from the source, multi-byte characters, long values); non-trivial = distinct texts. Oracle: JSON->XML read by an independent strict XML reader, XML->JSON and the round trip all give back exactly the text and the same structure");
    let sp = Space::new(run.s);
    let texts: Vec<&(usize, Vec<usize>)> = sp.paths.iter().filter(|(t, p)| run.s.doc(MTS[*t].module).field_at(p).ty == Ty::Prim(Prim::Str)).collect();
    run.counter("text_element_paths", texts.len() as u64);
    run.rounds(|_| {
        run.par("text", texts.len() as u64, |c| {
            let (t, p) = texts[c.idx as usize];
            let mt = &MTS[*t];
            let m = c.run.s.doc(mt.module);
            let name = format!("{}:{}", mt.short, m.names(p));
            let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &Cfg { p_opt: 0.05, budget: 80, ..Cfg::default() }, None);
            let attr = m.field_at(p).xml.starts_with('@');
            let mut v = nasty(c, false);
            // other ends, and all kinds of hostile text in one
            match c.rng.below(5) {
                0 => v = format!("{}{v}", c.rng.pick(SPACES)),
                1 => v = format!("{v}{}", c.rng.pick(SPACES)),
                2 => v = format!("{}{v}{}", c.rng.pick(SPACES), c.rng.pick(SPACES)),
                3 => {
                    let mut all: Vec<&str> = HOSTILE.iter().chain(SPACES).copied().collect();
                    for i in (1..all.len()).rev() {
                        all.swap(i, c.rng.below(i + 1));
                    }
                    v = format!("{}{v}{}{}", c.rng.pick(SPACES), all.concat(), c.rng.pick(SPACES));
                }
                _ => {}
            }
            if attr {
                v = v.replace(['\n', '\t', '\r'], " ");
            }
            g.doc.at_mut(p).unwrap().body = Body::Str(v.clone());
            if c.rng.chance(0.3) {
                let all = c.rng.chance(0.3);
                let mut r = c.rng.clone();
                let mut put = |f: &Field, n: &mut Node| {
                    if matches!(n.body, Body::Str(_)) && (all || r.chance(0.2)) && f.xml != "MsgDefIdr" {
                        let h = hostile(&mut r);
                        n.body = Body::Str(if f.xml.starts_with('@') { h.replace(['\n', '\t', '\r'], " ") } else { h });
                    }
                };
                g.doc.walk_mut(m, &mut put);
                g.hdr.walk_mut(hdr_module(c.run.s), &mut put);
            }
            let j = msg_json(c.run.s, mt, &g);
            c.eval(&key(&name, &j));
            c.saw("texts", v.as_bytes());
            let text = j.to_string();
            let msg = match MxMessage::from_json(&text) {
                Ok(m) => m,
                Err(e) => return c.fail(&format!("C06|json|{name}"), json!({"error": e.to_string(), "text": clip(&v, 400), "json": clip(&text, 4000)})),
            };
            match msg.to_xml() {
                Err(e) => c.fail(&format!("C06|to_xml|{name}"), json!({"error": e.to_string(), "text": clip(&v, 400)})),
                Ok(x) => {
                    if let Err(d) = check_emitted(c.run.s, mt, &g, &x) {
                        c.fail(&format!("C06|emitted|{name}"), json!({"difference": d, "text": clip(&v, 400), "xml": clip(&x, 6000)}));
                    }
                    match MxMessage::from_xml(&x) {
                        Ok(n) if n == msg => {}
                        Ok(n) => c.fail(&format!("C06|roundtrip|{name}"), json!({"difference": to_value(&n).ok().and_then(|b| json_diff(&j, &b, "")), "text": clip(&v, 400), "xml": clip(&x, 6000)})),
                        Err(e) => c.fail(&format!("C06|reparse|{name}"), json!({"error": e.to_string(), "text": clip(&v, 400), "xml": clip(&x, 6000)})),
                    }
                }
            }
            let st = EnvStyle { xml: XmlStyle { alt_escape: c.rng.next() | 1, ..Default::default() }, ..EnvStyle::plain() };
            let x = xml_of(c, mt, &g, &st);
            check_ingest(c, "C06", &name, &x, &j, false);
            c.sample(|| json!({"field": name, "text": clip(&v, 200)}));
        });
        // characters no XML document can carry: writing must be refused, never produce ill-formed XML
        run.par("illegal", 1200, |c| {
            let (t, p) = texts[c.rng.below(texts.len())];
            let mt = &MTS[*t];
            let m = c.run.s.doc(mt.module);
            let name = format!("{}:{}", mt.short, m.names(p));
            let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &Cfg { p_opt: 0.05, budget: 60, ..Cfg::default() }, None);
            let bad = match c.rng.below(4) {
                0 => *c.rng.pick(&['\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1f}', '\u{1b}']),
                1 => *c.rng.pick(&['\u{fffe}', '\u{ffff}']),
                _ => loop {
                    let k = c.rng.below(32) as u8;
                    if ![9, 10, 13].contains(&k) {
                        break k as char;
                    }
                },
            };
            let v = match c.rng.below(3) { 0 => format!("A{bad}"), 1 => format!("A{bad}B"), _ => format!("A <{bad}> é") };
            let hdr = c.rng.chance(0.15);
            if hdr {
                set_text(hdr_module(c.run.s), &mut g.hdr, "BizMsgIdr", &v);
            } else {
                g.doc.at_mut(p).unwrap().body = Body::Str(v.clone());
            }
            let j = msg_json(c.run.s, mt, &g);
            c.eval(&key(&name, &j));
            c.saw("illegal_characters", bad.to_string().as_bytes());
            if let Ok(x) = MxMessage::from_json(&j.to_string()).and_then(|m| m.to_xml()) {
                c.fail(&format!("C06|ill-formed XML written|{name}"), json!({"character": format!("U+{:04X}", bad as u32), "parser": format!("{:?}", xmlp::parse(&x).err()), "xml": clip(&x, 3000)}));
            }
            if c.idx % 4 == 0 {
                for a in crate::p_reject::json_acceptors(&j, true).into_iter().filter(|a| a.starts_with("publish_mx")) {
                    c.fail(&format!("C06|{a}|{name}"), json!({"character": format!("U+{:04X}", bad as u32)}));
                }
            }
        })
    });
}

// C07 -----------------------------------------------------------------
pub fn c07(run: &Run) {
    run.rule("case = one numeric element path of one message type with a decimal value of up to 15 significant digits (boundary magnitudes, many fraction digits, trailing zeros, source constants and neighbours); non-trivial = distinct (path, value). Oracle: exact decimal arithmetic on the strings");
    let sp = Space::new(run.s);
    let nums: Vec<&(usize, Vec<usize>)> = sp.paths.iter().filter(|(t, p)| run.s.doc(MTS[*t].module).field_at(p).ty == Ty::Prim(Prim::Num)).collect();
    run.counter("numeric_element_paths", nums.len() as u64);
    let per = if run.thorough() { 40 } else { 12 };
    run.rounds(|_| {
        run.par("number", nums.len() as u64, |c| {
            let (t, p) = nums[c.idx as usize];
            let mt = &MTS[*t];
            let m = c.run.s.doc(mt.module);
            let name = format!("{}:{}", mt.short, m.names(p));
            let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &Cfg { p_opt: 0.0, budget: 10, ..Cfg::default() }, None);
            let xml0 = {
                g.doc.at_mut(p).unwrap().body = Body::Num("86420.13579".into());
                xml_of(c, mt, &g, &EnvStyle::plain())
            };
            let j0 = msg_json(c.run.s, mt, &g).to_string();
            let (a, b) = xml0.split_once("86420.13579").unwrap();
            for _ in 0..per {
                let lex = lexical(c);
                c.eval(format!("{name}|{lex}").as_bytes());
                c.saw("values", lex.as_bytes());
                let x = format!("{a}{lex}{b}");
                let msg = match MxMessage::from_xml(&x) {
                    Ok(m) => m,
                    Err(e) => {
                        c.fail(&format!("C07|rejected|{name}"), json!({"value": lex, "error": e.to_string()}));
                        continue;
                    }
                };
                // XML -> message -> XML
                let back = msg.to_xml().map_err(|e| e.to_string()).and_then(|y| xmlp::parse(&y)).ok().and_then(|e| numeric_at(&e, mt, m, p));
                if back.as_deref().and_then(canon) != canon(&lex) {
                    c.fail(&format!("C07|xml|{name}"), json!({"value": lex, "written": back}));
                }
                // XML -> message -> JSON text: the number as written
                let jt = msg.to_json().unwrap_or_default();
                let jv: Option<String> = serde_json::from_str::<Value>(&jt).ok().and_then(|v| v.pointer(&pointer(&v, mt, m, p)).map(|n| n.to_string()));
                if jv.as_deref().and_then(canon) != canon(&lex) {
                    c.fail(&format!("C07|json|{name}"), json!({"value": lex, "json": jv}));
                }
                // JSON text holding the number as given -> message
                let jl = j0.replacen("86420.13579", &lex, 1);
                match MxMessage::from_json(&jl) {
                    Ok(m) if m == msg => {}
                    Ok(_) => c.fail(&format!("C07|read from JSON|{name}"), json!({"value": lex})),
                    Err(e) => c.fail(&format!("C07|refused in JSON|{name}"), json!({"value": lex, "error": e.to_string()})),
                }
                // JSON -> message
                if MxMessage::from_json(&jt).ok().as_ref() != Some(&msg) {
                    c.fail(&format!("C07|from_json|{name}"), json!({"value": lex}));
                }
            }
            c.sample(|| json!({"field": name, "example": lexical_demo()}));
        })
    });
}
fn lexical_demo() -> Value {
    json!(["0.00001", "999999999999999", "1234567890.12345", "100.00"])
}
pub fn lexical(c: &mut Case) -> String {
    let d = c.run.dict;
    let r = &mut c.rng;
    if !d.new_ints.is_empty() && r.chance(0.2) {
        let n = *r.pick(&d.new_ints);
        if n < 100_000_000_000 {
            return match r.below(5) { 0 => format!("{}", n + 1), 1 => format!("{}.99", n.saturating_sub(1)), 2 => format!("{n}.001"), _ => n.to_string() };
        }
    }
    if !d.new_decimals.is_empty() && r.chance(0.2) {
        return r.pick(&d.new_decimals).clone();
    }
    let digits = match r.below(3) { 0 => 15, 1 => 1 + r.below(15), _ => 1 + r.below(6) };
    let frac = if r.chance(0.3) { r.below(digits + 1) } else { r.below(6).min(digits) };
    let mut s: String = (0..digits).map(|i| if i == 0 { (b'1' + r.below(9) as u8) as char } else { *r.pick(&['0', '9', '1', '2', '3', '4', '5', '6', '7', '8']) }).collect();
    if r.chance(0.1) {
        s = "9".repeat(digits);
    }
    if r.chance(0.1) {
        s = format!("1{}", "0".repeat(digits - 1));
    }
    if frac > 0 {
        s.insert(digits - frac, '.');
        if s.starts_with('.') {
            s.insert(0, '0');
        }
    }
    match r.below(12) {
        0 => "0".into(),
        1 => format!("0.{:0w$}1", 0, w = 1 + r.below(4)),
        2 if !s.contains('.') => format!("{s}.0"),
        3 if s.contains('.') && digits < 14 => format!("{s}0"),
        4 => "0.01".into(),
        5 => format!("0.{}{}", "0".repeat(r.below(9)), s.replace('.', "").trim_start_matches('0').to_string() + "7").chars().take(17).collect(),
        6 => format!("-{s}"),
        _ => s,
    }
}
/// exact value of a plain decimal (or of a JSON number with exponent): digits and scale, normalised
pub fn canon(s: &str) -> Option<(String, i64)> {
    let (neg, t) = s.strip_prefix('-').map_or((false, s), |t| (true, t));
    let (mant, exp) = t.split_once(['e', 'E']).map_or((t, 0i64), |(m, e)| (m, e.trim_start_matches('+').parse().unwrap_or(9999)));
    let (a, b) = mant.split_once('.').unwrap_or((mant, ""));
    if a.is_empty() || !(a.to_string() + b).bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut d = format!("{a}{b}");
    let mut e = exp - b.len() as i64;
    while d.ends_with('0') && d.len() > 1 {
        d.pop();
        e += 1;
    }
    let d = d.trim_start_matches('0').to_string();
    if d.is_empty() {
        return Some(("0".into(), 0));
    }
    Some((if neg { format!("-{d}") } else { d }, e))
}
pub fn pointer(v: &Value, mt: &MT, m: &Module, p: &[usize]) -> String {
    let mut at = format!("/Document/{}", mt.tag);
    let mut t = m.root;
    for i in p {
        let f = &m.fields(t)[*i];
        at.push('/');
        at.push_str(&f.xml);
        if let Some(a) = v.pointer(&at).and_then(|x| x.as_array()) {
            at.push_str(&format!("/{}", a.len().saturating_sub(1)));
        }
        if let Ty::Ref(r) = f.ty {
            t = r;
        }
    }
    at
}
fn numeric_at(e: &xmlp::El, mt: &MT, m: &Module, p: &[usize]) -> Option<String> {
    let mut cur = e.kids.iter().find(|k| k.name == "Document")?.kids.iter().find(|k| k.name == mt.tag)?;
    let mut t = m.root;
    for i in p {
        let f = &m.fields(t)[*i];
        if f.xml == "$value" {
            return Some(cur.text.clone());
        }
        cur = cur.kids.iter().rfind(|k| k.name == f.xml)?;
        if let Ty::Ref(r) = f.ty {
            t = r;
        }
    }
    Some(cur.text.clone())
}
